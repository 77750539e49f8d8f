package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// run is the result of analysing functions on arbitrary arguments.
type run struct {
	e *Engine
	c *Ctx
}

func (c *Ctx) engine() *Engine {
	relDepth = 1
	e := newEngine(c.p)
	e.coarse = 4
	e.contracts = &contractSet{m: map[*ssa.Function]*contract{}, min: 150, max: 300000}
	e.setup = decoderSetup
	e.maxSteps = 8000000
	return e
}

// obligations gathers those of an engine and of the analyses made for it.
func (e *Engine) allObligations() []*Obligation {
	out := append([]*Obligation{}, e.oblSeq...)
	for _, s := range e.subs {
		out = append(out, s.oblSeq...)
	}
	return out
}

func (e *Engine) allLoops() map[*Loop]*loopResult {
	out := map[*Loop]*loopResult{}
	add := func(m map[*Loop]*loopResult) {
		for l, r := range m {
			o := out[l]
			if o == nil {
				o = &loopResult{how: map[string]int{}}
				out[l] = o
			}
			o.bounded += r.bounded
			o.summary += r.summary
			o.backs += r.backs
			o.progress += r.progress
			o.stuck = append(o.stuck, r.stuck...)
			for k, n := range r.how {
				o.how[k] += n
			}
		}
	}
	add(e.loopsN)
	for _, s := range e.subs {
		add(s.loopsN)
	}
	return out
}

func (e *Engine) allFuncs() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range e.funcs {
		out[f] = true
	}
	for _, s := range e.subs {
		for f := range s.funcs {
			out[f] = true
		}
	}
	return out
}

// site names a construct without its line.
func site(in ssa.Instruction, fn string) string {
	s := ""
	switch x := in.(type) {
	case *ssa.IndexAddr:
		s = "index of " + baseName(x.X)
	case *ssa.Slice:
		s = "slice of " + baseName(x.X)
	case *ssa.TypeAssert:
		s = "assertion to " + shortType(x.AssertedType)
	case *ssa.FieldAddr:
		s = "field of " + baseName(x.X)
	case ssa.CallInstruction:
		s = "call of " + calleeName(x)
	default:
		s = strings.TrimPrefix(strings.TrimPrefix(typeName(in), "*ssa."), "ssa.")
	}
	return fn + ": " + s
}

func typeName(in ssa.Instruction) string {
	switch in.(type) {
	case *ssa.MakeSlice:
		return "make"
	case *ssa.BinOp:
		return "arithmetic"
	case *ssa.UnOp:
		return "load"
	case *ssa.Store:
		return "store"
	case *ssa.MapUpdate:
		return "map assignment"
	case *ssa.Panic:
		return "panic"
	}
	return "instruction"
}

func calleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return "a function value"
}

// baseName is the name of a variable or field, if a value has one.
func baseName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		return baseName(x.X)
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return baseName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return baseName(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Phi:
		return x.Comment
	case *ssa.Global:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.IndexAddr:
		return baseName(x.X) + "[]"
	case *ssa.Slice:
		return baseName(x.X)
	case *ssa.Call:
		return calleeName(x) + "()"
	case *ssa.Extract:
		return baseName(x.Tuple)
	}
	return "a value"
}

// analyse runs functions on arbitrary arguments; undecided ones are violations.
// A function literal that a goroutine runs is analysed in the states in which
// the functions before it start it.
func (c *Ctx) analyse(e *Engine, fns []*ssa.Function, each func(fn *ssa.Function, args []Value, rets []ret)) {
	e.collectGo = true
	for _, fn := range fns {
		started := e.startsOf(fn)
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(undecided)
					if !ok {
						panic(r)
					}
					e.stack = nil
					e.quiet = 0
					c.violate("undecided", c.p.pos(fn.Pos()), funcName(fn), "%s", u.msg)
				}
			}()
			for _, g := range started {
				e.stack = nil
				rets := e.callFn(g.st, fn, g.args, g.fn.binds, nil)
				c.count("partitions", len(rets))
			}
			if len(started) > 0 {
				return
			}
			st := newState()
			args := e.genericArgs(st, fn)
			rets := e.callFn(st, fn, args, nil, nil)
			c.count("partitions", len(rets))
			if each != nil {
				each(fn, args, rets)
			}
		}()
		c.count("entry points", 1)
		c.sample("entry point %s", funcName(fn))
	}
}

// startsOf gives the states in which goroutines that run a function literal
// with variables of its surroundings were started.
func (e *Engine) startsOf(fn *ssa.Function) []goState {
	var out []goState
	for _, g := range e.goStates {
		if g.fn.fn == fn && len(fn.FreeVars) > 0 {
			out = append(out, g)
		}
	}
	return out
}

// panics reports the obligations that do not hold.
func (c *Ctx) panics(e *Engine, want func(o *Obligation) bool) {
	for _, o := range e.allObligations() {
		if want != nil && !want(o) {
			continue
		}
		c.count("obligations", 1)
		c.count("obligations: "+o.kind, 1)
		c.count("obligation instances", o.ok+o.failed)
		if o.inv > 0 {
			c.count("by field invariants", 1)
		}
		if o.failed > 0 && !c.e2sub(e, o) {
			c.violate("no panic: "+o.kind, o.where, site(o.instr, o.fn), "%s (%s)", o.detail, o.expr)
		} else {
			c.count("discharged", 1)
		}
	}
	c.count("functions", len(e.allFuncs()))
	for n := range c.p.invariants().used {
		c.assume(n)
	}
	for n := range e.notes {
		if strings.HasPrefix(n, "unknown function") && !strings.Contains(n, "cancel") {
			c.assume("no panic in " + strings.Split(n, "~")[0])
		}
	}
}

// e2sub: an obligation that fails in the analysis of a contract that is not
// used says nothing; the function is then analysed in the states of its calls.
func (c *Ctx) e2sub(e *Engine, o *Obligation) bool {
	for _, s := range e.subs {
		for _, q := range s.oblSeq {
			if q == o {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) terminates(e *Engine, want func(fn *ssa.Function) bool) {
	type entry struct {
		l *Loop
		r *loopResult
	}
	var ls []entry
	for l, r := range e.allLoops() {
		if want(l.header.Parent()) {
			ls = append(ls, entry{l, r})
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].l.header.Parent().Pos() < ls[j].l.header.Parent().Pos() })
	for _, x := range ls {
		fn := x.l.header.Parent()
		c.count("loops", 1)
		c.count("back edges", x.r.backs)
		for k, n := range x.r.how {
			c.count("back edges: "+k, n)
		}
		if x.r.progress < x.r.backs {
			c.violate("termination", c.p.pos(instrPos(x.l.header.Instrs[0])), funcName(fn)+": loop", "an iteration neither consumes input nor comes closer to a bound, and may be repeated without end")
		}
		c.sample("loop in %s: %d ways round, all make progress", funcName(fn), x.r.backs)
	}
}

// --- entry points

// exportedMethods of a type, in the order of their names.
func (c *Ctx) exportedMethods(pkg, typ string) []*ssa.Function {
	path := modulePath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := c.p.Pkgs[path]
	if sp == nil || sp.Type(typ) == nil {
		return nil
	}
	t := sp.Type(typ).Type()
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if !m.Exported() {
			continue
		}
		if f := c.p.SSA.FuncValue(m); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// clientImpl is the type of the module that implements Client.
func (c *Ctx) clientImpl() *types.Named {
	sp := c.p.Pkgs[modulePath]
	if sp == nil || sp.Type("Client") == nil {
		return nil
	}
	t := c.p.implementor(sp.Type("Client").Type())
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (c *Ctx) clientMethod(name string) *ssa.Function {
	n := c.clientImpl()
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return c.p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// spawned gives the functions that goroutines started by fn run.
func (c *Ctx) spawned(root *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo && !seen[callee] {
					out = append(out, callee)
				}
				walk(callee)
			}
		}
	}
	walk(root)
	return out
}

// receivers are the functions that run on what arrives: the receive loop and
// the goroutines it starts.
func (c *Ctx) receivers() []*ssa.Function {
	r := c.clientMethod("ClientRun")
	if r == nil {
		c.violate("coverage", "-", "ClientRun", "the client has no receive loop")
		return nil
	}
	return append([]*ssa.Function{r}, c.spawned(r)...)
}

func inPkg(fn *ssa.Function, pkg string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modulePath+"/"+pkg
}

func (c *Ctx) decoderMethods() []*ssa.Function {
	fns := c.exportedMethods("encoding", "Decoder")
	if len(fns) == 0 {
		c.violate("coverage", "-", "Decoder", "there is no decoder")
	}
	return fns
}

func init() {
	register("R01", "abstract interpretation over SSA (relational intervals, nil-ness, dynamic types, function contracts)",
		"every instruction that can panic (index, slice, nil dereference, type assertion, nil map, division, make) reachable from the receive loop and the goroutines it starts is safe for every datagram",
		func(c *Ctx) {
			e := c.engine()
			c.analyse(e, c.receivers(), nil)
			c.panics(e, nil)
			c.floor("obligations", 150)
			c.floor("functions", 20)
		})
	register("R02", "abstract interpretation over SSA (relational intervals, nil-ness, dynamic types, function contracts)",
		"every instruction that can panic reachable from an exported method of the decoder is safe for every byte string",
		func(c *Ctx) {
			e := c.engine()
			c.analyse(e, c.decoderMethods(), nil)
			c.panics(e, nil)
			c.floor("obligations", 250)
		})
	register("R03", "abstract interpretation over SSA with ranking arguments (consumed bytes, bounded counters)",
		"every way round every loop reachable from an exported method of the decoder or from the handler of a datagram consumes input, comes closer to a bound, or is the last",
		func(c *Ctx) {
			e := c.engine()
			fns := c.decoderMethods()
			rs := c.receivers()
			if len(rs) > 1 {
				fns = append(fns, rs[1:]...)
			}
			c.analyse(e, fns, nil)
			run := c.clientMethod("ClientRun")
			c.terminates(e, func(fn *ssa.Function) bool { return fn != run })
			c.recursion(e)
			c.floor("loops", 5)
		})
	register("R04", "abstract interpretation over SSA (relational intervals)",
		"every size given to make, and every count of appended elements, reachable from an exported method of the decoder is bounded by a constant or by the number of bytes received",
		func(c *Ctx) {
			e := c.engine()
			e.onMake = func(st *State, in ssa.Instruction, n *Lin) {
				c.count("allocations", 1)
				if hi := st.f.rng(n).hi; hi != nil && hi.Cmp(big.NewInt(1<<16)) <= 0 {
					c.count("allocations: bounded by a constant", 1)
					return
				}
				// compared with the length of the input?
				lens := map[*Atom]bool{}
				for _, e := range st.f.iv {
					for a := range atomsOf(e.l) {
						if strings.HasPrefix(a.name, "len(") {
							lens[a] = true
						}
					}
				}
				for a := range lens {
					if st.f.decideCmp(n.sub(linAtom(a)).addC(-1<<16), opLE) == 1 {
						c.count("allocations: bounded by the input", 1)
						return
					}
				}
				for a := range atomsOf(st.f.reduce(n)) {
					if !strings.HasPrefix(a.name, "len(") {
						c.violate("bounded memory", c.p.pos(instrPos(in)), site(in, funcName(in.Parent())), "the size %s of an allocation is not bounded by what was received", n.key)
						return
					}
				}
				c.count("allocations: bounded by the input", 1)
			}
			c.analyse(e, c.decoderMethods(), nil)
			c.floor("allocations", 1)
		})
	register("R05", "abstract interpretation over SSA, tracking failed reads to the result",
		"on every way through an exported method of the decoder on which a read met the end of the message, the method returns an error or the decoder holds one",
		func(c *Ctx) {
			e := c.engine()
			errm := c.p.Func("encoding", "(*Decoder).Error")
			c.analyse(e, c.decoderMethods(), func(fn *ssa.Function, args []Value, rets []ret) {
				if isReader(fn) {
					return // says how much it read
				}
				for _, r := range rets {
					s, ok := r.st.flags["short"].(*BoolV)
					if !ok {
						continue
					}
					c.count("ways with a failed read", 1)
					if r.st.decide(s) == 0 {
						continue
					}
					if ev := errorResult(fn, r.v); ev != nil {
						if r.st.decide(r.st.nilCond(ev)) == 0 {
							c.count("reported by the result", 1)
							continue
						}
						c.violate("truncation is reported", c.p.pos(fn.Pos()), funcName(fn), "the message ends too early and no error is returned (%s, facts %s)", s.vkey(), clip(r.st.f.String(), 300))
						continue
					}
					if errm == nil {
						c.violate("coverage", "-", "Error", "the decoder has no error")
						continue
					}
					for _, q := range e.callFn(r.st.clone(), errm, args[:1], nil, nil) {
						if q.st.decide(q.st.nilCond(q.v)) != 0 {
							c.violate("truncation is reported", c.p.pos(fn.Pos()), funcName(fn), "the message ends too early and the decoder holds no error")
						} else {
							c.count("held by the decoder", 1)
						}
					}
				}
			})
			c.floor("ways with a failed read", 10)
		})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// errorResult is the error among the results.
func errorResult(fn *ssa.Function, v Value) Value {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if r.At(i).Type().String() == "error" {
			if t, ok := v.(TupleV); ok {
				return t[i]
			}
			return v
		}
	}
	return nil
}

func atomsOf(l *Lin) map[*Atom]bool {
	out := map[*Atom]bool{}
	for _, t := range l.ts {
		out[t.a] = true
	}
	return out
}

// recursion: no function that was analysed calls itself.
func (c *Ctx) recursion(e *Engine) {
	fs := e.allFuncs()
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if state[f] == 1 {
			return true
		}
		if state[f] == 2 {
			return false
		}
		state[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && fs[g] && visit(g) {
					c.violate("termination", c.p.pos(f.Pos()), funcName(f), "the function calls itself without a bound of the depth")
				}
			}
		}
		state[f] = 2
		return false
	}
	for f := range fs {
		visit(f)
		c.count("functions without recursion", 1)
	}
}

// isReader: the function has the contract of io.Reader.
func isReader(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 1 && s.Params().At(0).Type().String() == "[]byte" && s.Results().Len() == 2 &&
		s.Results().At(0).Type().String() == "int" && s.Results().At(1).Type().String() == "error"
}
