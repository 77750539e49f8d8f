package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const thmTech = "abstract interpretation over SSA with trace partitioning, compared with an executable specification interpreted in the same domain"

func registerThm(id, rule string) {
	register(id, thmTech, rule, func(c *Ctx) { c.theorems(id, func(e *Engine, fn *ssa.Function) { e.unroll = 2900 }) })
}

// stubbed registers theorems about the client: functions that wait for other
// goroutines are replaced by functions of the specification.
func stubbed(id, rule string) {
	register(id, thmTech, rule, func(c *Ctx) {
		c.theorems(id, func(e *Engine, fn *ssa.Function) {
			e.seq, e.unroll = true, 2900
			validation(e)
			for _, t := range []string{"ErrorClass", "ErrorCode"} {
				e.override["(btypes/bacerr."+t+").String"] = func(c *call) []outcome {
					v := c.pure()
					if x, ok := v.(*StrV); ok {
						x.num, _ = c.args[0].(*Lin) // B01: each has a name of its own
					}
					return c.ret(v)
				}
			}
			for name, stub := range map[string]string{
				"(*tsm.TSM).ID": "tsmID", "(*tsm.TSM).Put": "tsmPut", "(*tsm.TSM).Receive": "tsmReceive",
				"(*utsm.Manager).Subscribe": "utsmSubscribe", "tsm.New": "tsmNew", "(*tsm.TSM).Send": "tsmSend", "(*utsm.Manager).Publish": "utsmPublish",
				"utsm.NewManager":               "utsmNew",
				"(*bacnet.client).ReadProperty": "readOne", "(*bacnet.client).ReadMultiProperty": "readMany",
			} {
				if strings.HasPrefix(name, "(*bacnet.client)") && id != "W15" {
					continue
				}
				f := fn.Pkg.Func(stub)
				e.override[name] = func(c *call) []outcome {
					if f == nil {
						panic(undecided{"no " + stub})
					}
					return c.callFunc(f, nil, c.args)
				}
			}
		})
	})
}

// overNetwork registers theorems about the package network, which is analysed
// with a client of the specification.
func overNetwork(id, rule string) {
	register(id, thmTech, rule, func(c *Ctx) {
		c.theorems(id, func(e *Engine, fn *ssa.Function) {
			e.seq, e.unroll = true, 2900
			validation(e)
			for name, stub := range map[string]string{
				"bacnet.NewClient": "bacnetNew", "helpers/ipbytes.New": "ipNew",
				"(*github.com/patrickmn/go-cache.cache).Set": "cacheSet", "(*github.com/patrickmn/go-cache.cache).Get": "cacheGet",
			} {
				f := fn.Pkg.Func(stub)
				e.override[name] = func(c *call) []outcome {
					if f == nil {
						panic(undecided{"no " + stub})
					}
					return c.callFunc(f, nil, c.args)
				}
			}
		})
	})
}

// overSockets registers theorems about the data link, with sockets of the
// specification.
func overSockets(id, rule string) {
	register(id, thmTech, rule, func(c *Ctx) {
		c.theorems(id, func(e *Engine, fn *ssa.Function) {
			e.seq = true
			e.stubs(fn, map[string]string{
				"net.ParseCIDR": "netParseCIDR", "net.ResolveUDPAddr": "netResolve", "net.ListenUDP": "netListen",
				"net.InterfaceByName": "netInterface", "(*net.Interface).Addrs": "netAddrs",
				"(*net.UDPConn).Close": "connClose", "(*net.conn).Close": "connClose",
				"(*net.UDPConn).WriteTo": "connWriteTo", "(*net.UDPConn).WriteToUDP": "connSend",
				"(*net.UDPConn).ReadFromUDP": "connRead", "(*net.UDPConn).ReadFrom": "connReadFrom",
			})
		})
	})
}

// stubs replaces functions by functions of the specification.
func (e *Engine) stubs(fn *ssa.Function, m map[string]string) {
	for name, stub := range m {
		f := fn.Pkg.Func(stub)
		e.override[name] = func(c *call) []outcome {
			if f == nil {
				panic(undecided{"no " + stub})
			}
			return c.callFunc(f, nil, c.args)
		}
	}
}

// precisely registers theorems about channels, which hold exactly what the
// analysed functions put into them.
func precisely(id, rule string) {
	register(id, thmTech, rule, func(c *Ctx) {
		c.theorems(id, func(e *Engine, fn *ssa.Function) { e.seq, e.precise, e.unroll = true, true, 700 })
		c.premises("tsm/")
	})
}

// scheduled registers theorems about goroutines, which run when the one that
// starts them waits.
func scheduled(id, rule string, packages ...string) {
	register(id, thmTech, rule, func(c *Ctx) {
		c.theorems(id, func(e *Engine, fn *ssa.Function) {
			e.seq, e.precise, e.late, e.unroll, e.unrollAny, e.unrollParts = true, true, true, 700, 12, 400
		})
		c.premises(packages...)
	})
}

func init() {
	scheduled("C06", "every statement of the specification of concurrent requests and answers holds in every partition of the abstract states", "", "tsm/", "utsm/")
	scheduled("C07", "every statement of the specification of subscriptions holds in every partition of the abstract states", "utsm/")
	precisely("C01", "every statement of the specification of invoke ids holds in every partition of the abstract states")
	precisely("C02", "every statement of the specification of transactions holds in every partition of the abstract states")
	overSockets("E01", "every statement of the specification of addresses holds in every partition of the abstract states")
	overSockets("E02", "every statement of the specification of datagrams of a data link holds in every partition of the abstract states")
	register("E03", thmTech, "every statement of the specification of described devices holds in every partition of the abstract states", func(c *Ctx) {
		c.theorems("E03", func(e *Engine, fn *ssa.Function) {
			e.seq = true
			validation(e)
			e.stubs(fn, map[string]string{
				"net.ParseIP": "netParseIP", "math/big.NewInt": "bigNew", "(*math/big.Int).SetBytes": "bigSetBytes", "(*math/big.Int).Int64": "bigInt64",
				"(*math/big.Int).Uint64": "bigUint64", "(*math/big.Int).Bytes": "bigBytes",
			})
		})
	})
	register("B01", "lint of the constants of the type-checked program, and "+thmTech, "every declared constant of the tables has the number of the standard; every statement of the specification of names and numbers holds in every partition of the abstract states", func(c *Ctx) {
		c.numbers()
		c.floor("constants", 100)
		c.theorems("B01", func(e *Engine, fn *ssa.Function) { e.unroll = 2900 })
	})
	register("B02", thmTech, "every statement of the specification of object maps holds in every partition of the abstract states", func(c *Ctx) {
		c.theorems("B02", func(e *Engine, fn *ssa.Function) {
			e.unroll, e.unrollAny, e.unrollParts = 2900, 12, 400
			e.stubs(fn, map[string]string{"encoding/json.Marshal": "jsonMarshal", "encoding/json.Unmarshal": "jsonUnmarshal"})
		})
	})
	overNetwork("N05", "every statement of the specification of discovery by the package network holds in every partition of the abstract states")
	overNetwork("N06", "every statement of the specification of networks and devices that are kept holds in every partition of the abstract states")
	overNetwork("N07", "every statement of the specification of the details of points and devices holds in every partition of the abstract states")
	overNetwork("N01", "every statement of the specification of reads by the package network holds in every partition of the abstract states")
	overNetwork("N04", "every statement of the specification of object lists holds in every partition of the abstract states")
	overNetwork("N02", "every statement of the specification of writes by the package network holds in every partition of the abstract states")
	overNetwork("N03", "every statement of the specification of priority arrays holds in every partition of the abstract states")
	stubbed("W15", "every statement of the specification of the objects of a device holds in every partition of the abstract states")
	stubbed("W11", "every statement of the specification of the messages that a client sends holds in every partition of the abstract states")
	stubbed("W14", "every statement of the specification of received datagrams holds in every partition of the abstract states")
	stubbed("W12", "every statement of the specification of what a client makes of answers holds in every partition of the abstract states")
	stubbed("W13", "every statement of the specification of discovery holds in every partition of the abstract states")
	registerThm("W07", "every statement of the specification of ReadPropertyMultiple and WritePropertyMultiple requests holds in every partition of the abstract states")
	registerThm("W05", "every statement of the specification of APDU headers holds in every partition of the abstract states")
	registerThm("W06", "every statement of the specification of ReadProperty and WriteProperty requests holds in every partition of the abstract states")
	registerThm("W03", "every statement of the specification of the network header holds in every partition of the abstract states")
	registerThm("W04", "every statement of the specification of decoded network headers holds in every partition of the abstract states")
	registerThm("W01", "every statement of the specification of application-tagged values holds in every partition of the abstract states")
	register("W02", thmTech, "every statement of the specification of decoded values holds in every partition of the abstract states", func(c *Ctx) {
		c.theorems("W02", func(e *Engine, fn *ssa.Function) {
			e.unroll = 2900
			e.stubs(fn, map[string]string{
				"golang.org/x/text/encoding/unicode.UTF16":     "utf16",
				"(*golang.org/x/text/encoding.Decoder).String": "decoderString",
				"(*golang.org/x/text/encoding.Decoder).Bytes":  "decoderBytes",
			})
		})
	})
	registerThm("W08", "every statement of the specification of answers to ReadProperty holds in every partition of the abstract states")
	registerThm("W16", "every statement of the specification of members of constructed values holds in every partition of the abstract states")
	registerThm("W17", "every statement of the specification of bit strings holds in every partition of the abstract states")
	registerThm("W09", "every statement of the specification of answers to ReadPropertyMultiple holds in every partition of the abstract states")
	registerThm("W10", "every statement of the specification of Who-Is and I-Am holds in every partition of the abstract states")
}

// validation: the addresses that the specifications use are valid, except an
// empty one.
func validation(e *Engine) {
	for _, n := range []string{"ValidIP", "ValidPort", "ValidCIDR"} {
		e.override["helpers/validation."+n] = func(c *call) []outcome {
			switch x := c.args[0].(type) {
			case *StrV:
				if x.lit != nil {
					return c.ret(boolC(*x.lit != ""))
				}
			case *Lin:
				if v, ok := x.intConst(); ok {
					return c.ret(boolC(v >= 0 && v <= 0xffff))
				}
			}
			return c.ret(c.pure())
		}
	}
}
