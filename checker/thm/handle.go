package thm

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
)

// W14: what a running client does with a datagram: it is either passed to the
// transaction it answers, or published, or ignored.

type feed struct {
	wire
	data []byte
	from btypes.Address
	n    int
}

func (f *feed) Receive(b []byte) (*btypes.Address, int, error) {
	f.n++
	if f.n > 1 {
		return nil, 0, errors.New("closed")
	}
	a := f.from
	return &a, copy(b, f.data), nil
}

var (
	answers  int
	answered int
	given    interface{}
	news     int
	about    int
	said     interface{}
)

func tsmSend(t *tsm.TSM, id int, b interface{}) error {
	answers++
	answered, given = id, b
	return nil
}

func utsmPublish(m *utsm.Manager, id int, data interface{}) {
	news++
	about, said = id, data
}

func received1(from btypes.Address, data []byte) {
	answers, news = 0, 0
	f := &feed{data: data, from: from}
	c, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: f})
	Assert(err == nil && c != nil, "a client is made for a data link")
	c.ClientRun()
	Assert(f.n == 2, "the client receives until the data link is closed")
}

// npdu is the header that precedes a message of a device, with or without routers.
func envelope(kind byte, snet uint16, m byte, msg []byte) []byte {
	w := []byte{1, 0}
	switch kind {
	case 1: // from a device behind a router
		w = []byte{1, 8, byte(snet >> 8), byte(snet), 1, m}
	case 2: // to a network, expecting a reply
		w = []byte{1, 0x24, 0xff, 0xff, 0, 255}
	case 3: // both
		w = []byte{1, 0x28, 0xff, 0xff, 0, byte(snet >> 8), byte(snet), 1, m, 254}
	}
	return append(w, msg...)
}

func bvlc(function byte, npdu []byte) []byte {
	n := 4 + len(npdu)
	return append([]byte{0x81, function, byte(n >> 8), byte(n)}, npdu...)
}

func deliver(id byte, want []byte) {
	Assert(answers == 1 && news == 0 && answered == int(id), "the answer is given to its transaction")
	b, ok := given.([]byte)
	Assert(ok, "the transaction gets octets")
	Equal(b, want, "the transaction gets the whole answer")
}

func enclose(how byte, npdu []byte) []byte {
	switch how {
	case 0:
		return bvlc(0x0a, npdu)
	case 1:
		return bvlc(0x0b, npdu)
	}
	n := 10 + len(npdu)
	return append([]byte{0x81, 4, byte(n >> 8), byte(n), 10, 1, 1, 1, 0xba, 0xc0}, npdu...)
}

func W14_Ack(how, kind, id, service byte, snet uint16, m byte, rest []byte) {
	Assume(len(rest) <= 1473)
	msg := append([]byte{0x30, id, service}, rest...)
	received1(address(10, 0, 0, 9, 47808), enclose(how, envelope(kind, snet, m, msg)))
	deliver(id, msg)
}

func W14_SimpleAck(how, kind, id, service byte, snet uint16, m byte) {
	msg := []byte{0x20, id, service}
	received1(address(10, 0, 0, 9, 47808), enclose(how, envelope(kind, snet, m, msg)))
	deliver(id, msg)
}

func W14_Error(how, kind, id, service byte, snet uint16, m byte, class, code uint32) {
	class, code = class&0xff, code&0xffff
	received1(address(10, 0, 0, 9, 47808), enclose(how, envelope(kind, snet, m, app(app([]byte{0x50, id, service}, 9, class), 9, code))))
	Assert(answers == 1 && news == 0 && answered == int(id), "the error is given to its transaction")
	err, ok := given.(error)
	Assert(ok && err != nil, "the transaction gets an error")
	Assert(Mentions(err, class), "the error tells its class")
	Assert(Mentions(err, code), "the error tells its code")
}

func isIAm(instance, maxApdu, seg, vendor uint32) btypes.IAm {
	Assert(answers == 0 && news == 1 && about == int(instance), "I-Am is published for its device")
	x, ok := said.(btypes.IAm)
	Assert(ok, "I-Am is published")
	Assert(x.ID.Type == 8 && uint32(x.ID.Instance) == instance && x.MaxApdu == maxApdu && uint32(x.Segmentation) == seg && x.Vendor == vendor, "the contents of I-Am are published")
	return x
}

func W14_IAm(kind, a byte, port, snet uint16, m byte, instance, vendor uint32) {
	kind, instance, vendor, a = kind&3, instance&0x3fffff, vendor&0xffff, a&0x7f
	from := address(10, 0, 0, a, port)
	received1(from, bvlc(0x0b, envelope(kind, snet, m, iam(8, instance, 480, 3, vendor))))
	x := isIAm(instance, 480, 3, vendor)
	Equal(x.Addr.Mac, from.Mac, "the address is where I-Am came from")
	if kind == 1 || kind == 3 {
		Equal(x.Addr.Adr, []byte{m}, "the station is that of the source")
		Assert(x.Addr.Net == snet, "the network is that of the source")
	} else {
		Assert(x.Addr.Net == 0 && len(x.Addr.Adr) == 0, "the device is not behind a router")
	}
}

// A message that a BBMD forwards: it comes from the address that precedes it.
func W14_Forwarded(a, b, c, d byte, port uint16, instance uint32) {
	instance &= 0x3fffff
	received1(address(10, 0, 0, 1, 47808), append([]byte{0x81, 4, 0, 25, a, b, c, d, byte(port >> 8), byte(port)}, envelope(0, 0, 0, iam(8, instance, 50, 0, 7))...))
	x := isIAm(instance, 50, 0, 7)
	Equal(x.Addr.Mac, []byte{a, b, c, d, byte(port >> 8), byte(port)}, "the address is that of the device")
	Assert(x.Addr.MacLen == 6, "the address is that of a device")
}

func W14_Network(net, b uint16) {
	from := address(10, 0, 0, 9, 47808)
	received1(from, bvlc(0x0a, []byte{1, 0x80, 0x13, byte(net >> 8), byte(net), 1}))
	Assert(answers == 0 && news == 1 && about == int(net), "the number of the network is published")
	n, ok := said.(btypes.NPDU)
	Assert(ok && n.NetworkLayerMessageType == ndpu.NetworkIs && n.Source != nil && n.Source.Net == net, "the number of the network is published")
	received1(from, bvlc(0x0a, []byte{1, 0x80, 1, byte(net >> 8), byte(net), byte(b >> 8), byte(b)}))
	Assert(answers == 0 && news == 1, "the networks of a router are published")
	l, ok := said.([]btypes.Address)
	Assert(ok && len(l) >= 1 && l[0].Net == net, "the networks of a router are published")
	if b != net {
		Assert(len(l) == 2 && l[1].Net == b, "all networks of a router are published")
	}
}

func ignored(b []byte) {
	received1(address(10, 0, 0, 9, 47808), b)
	Assert(answers == 0 && news == 0, "the message is ignored")
}

// Requests of others, other network messages, and what is not for BACnet/IP.

func W14_Requests(how, kind, id, service byte, snet uint16, m byte, rest []byte) {
	Assume(len(rest) <= 1400)
	ignored(enclose(how, envelope(kind, snet, m, append([]byte{0, 5, id, service}, rest...))))
}

func W14_WhoIs(how, kind byte, snet uint16, m byte) {
	ignored(enclose(how, envelope(kind, snet, m, whoIs(1, 70))))
}

func W14_Unconfirmed(how, kind, service byte, snet uint16, m byte, rest []byte) {
	Assume(len(rest) <= 1400)
	if service > 0 && service != 8 {
		ignored(enclose(how, envelope(kind, snet, m, append([]byte{0x10, service}, rest...))))
	}
}

func W14_Others(how, kind, id, service, typ byte, snet uint16, m byte, rest []byte) {
	Assume(len(rest) <= 1400)
	if typ &= 0xf0; typ >= 0x60 || typ == 0x40 {
		ignored(enclose(how, envelope(kind, snet, m, append([]byte{typ, id, service}, rest...))))
	}
}

func W14_Functions(function, id, service byte, rest []byte) {
	Assume(len(rest) <= 1400)
	if function != 4 && function != 0x0a && function != 0x0b {
		ignored(bvlc(function, append([]byte{1, 0, 0x30, id, service}, rest...)))
	}
}

func W14_NetworkMessages(how, msgType byte, rest []byte) {
	Assume(len(rest) <= 1400)
	if msgType != 1 && msgType != 0x13 {
		ignored(enclose(how, append([]byte{1, 0x80, msgType}, rest...)))
	}
}

func W14_Truncated(n uint16, snet uint16, m byte, instance uint32) {
	w := bvlc(0x0b, envelope(3, snet, m, iam(8, instance&0x3fffff, 50, 0, 7)))
	if int(n) < len(w) {
		ignored(w[:n])
	}
}

func W14_NotIAm(how, at byte, instance, vendor uint32) {
	instance, vendor = instance&0x3fffff, vendor&0xff
	for i := 0; i < 4; i++ {
		for _, x := range [][]byte{{0x11}, {0x44, 0x40, 0, 0, 0}} {
			if int(at) == i {
				f := iamFields(instance, 50, 3, vendor)
				f[i] = x
				ignored(enclose(how, envelope(0, 0, 0, append([]byte{0x10, 0}, joined(f)...))))
			}
		}
	}
}

// Answers that end too early are answers to nobody.
func W14_CutAnswers(how, kind, n, typ, id, service byte, snet uint16, m byte) {
	msg := []byte{0x30, id, service}
	if typ == 1 {
		msg[0] = 0x20
	}
	if typ == 2 {
		msg[0] = 0x50
	}
	switch n {
	case 0:
		ignored(enclose(how, envelope(kind, snet, m, msg[:0])))
	case 1:
		ignored(enclose(how, envelope(kind, snet, m, msg[:1])))
	case 2:
		ignored(enclose(how, envelope(kind, snet, m, msg[:2])))
	}
}

func W14_CutErrors(how, id, service, class, code, n byte) {
	msg := []byte{0x50, id, service, 0x91, class, 0x91, code}
	for k := 3; k < 7; k++ {
		if int(n) == k {
			ignored(enclose(how, envelope(0, 0, 0, msg[:k])))
		}
	}
}

func W14_CutIAm(how, n byte, instance, vendor uint32) {
	msg := iam(8, instance&0x3fffff, 50, 3, vendor&0xff)
	for k := 0; k < len(msg); k++ {
		if int(n) == k {
			ignored(enclose(how, envelope(0, 0, 0, msg[:k])))
		}
	}
}
