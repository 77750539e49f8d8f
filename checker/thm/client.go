package thm

import (
	"context"
	"errors"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
)

// The client is analysed with a data link that keeps what it is given, and
// without waiting: the functions below stand for those of tsm and utsm.

type wire struct {
	my, broadcast *btypes.Address
	sent          [][]byte
	to            []btypes.Address
	fails         bool
}

func (w *wire) GetMyAddress() *btypes.Address        { return w.my }
func (w *wire) GetBroadcastAddress() *btypes.Address { return w.broadcast }
func (w *wire) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	w.sent = append(w.sent, data)
	w.to = append(w.to, *dest)
	if w.fails {
		return 0, errors.New("not sent")
	}
	return len(data), nil
}
func (w *wire) Receive(data []byte) (*btypes.Address, int, error) {
	return nil, 0, errors.New("closed")
}
func (w *wire) Close() error { return nil }

var (
	line      *wire
	invokeID  int
	taken     int
	released  int
	received  int
	busy      bool          // there is no free id
	replies   []interface{} // an error or octets; nil: nothing comes
	published []interface{}
	low, high int
)

func tsmNew(size int) *tsm.TSM { return &tsm.TSM{} }

func tsmID(t *tsm.TSM, ctx context.Context) (int, error) {
	if busy {
		return 0, errors.New("busy")
	}
	taken++
	return invokeID, nil
}

func tsmPut(t *tsm.TSM, id int) error {
	Assert(id == invokeID, "the invoke id that is released was taken")
	Assert(taken == released+1, "the invoke id is released once")
	released++
	return nil
}

func tsmReceive(t *tsm.TSM, id int, timeout time.Duration) (interface{}, error) {
	Assert(id == invokeID && taken == released+1, "the answer is awaited with the invoke id that was taken")
	Assert(timeout > 0 && timeout <= time.Minute, "an answer is awaited for a bounded time")
	Assert(len(line.sent) > received, "the request is sent before the answer is awaited")
	i := received
	received++
	if i >= len(replies) || replies[i] == nil {
		return nil, errors.New("timeout")
	}
	return replies[i], nil
}

func utsmNew(options ...utsm.ManagerOption) *utsm.Manager { return &utsm.Manager{} }

func utsmSubscribe(m *utsm.Manager, start int, end int, options ...utsm.SubscriberOption) ([]interface{}, error) {
	low, high = start, end
	Assert(len(line.sent) == 0, "the client subscribes before it sends")
	for _, o := range options {
		o(nil)
	}
	Assert(len(line.sent) == 1, "the client sends when it has subscribed")
	return published, nil
}

func newClient(id byte) bacnet.Client {
	line = &wire{my: &btypes.Address{Mac: []byte{10, 0, 0, 1, 0xba, 0xc0}, MacLen: 6}, broadcast: &btypes.Address{Mac: []byte{10, 0, 0, 255, 0xba, 0xc0}, MacLen: 6}}
	invokeID, taken, released, received, busy, replies, published, low, high = int(id), 0, 0, 0, false, nil, nil, 0, 0
	c, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: line})
	Assert(err == nil && c != nil, "a client is made for a data link")
	return c
}

func address(a, b, c, d byte, port uint16) btypes.Address {
	return btypes.Address{Mac: []byte{a, b, c, d, byte(port >> 8), byte(port)}, MacLen: 6}
}

// datagram is the message with its headers (annex J.2, clause 6.2.2).
func datagram(function, control byte, dest btypes.Address, msg []byte) []byte {
	w := []byte{1, control}
	if dest.Net != 0 {
		w = put([]byte{1, control | 0x20}, uint32(dest.Net), 2)
		w = append(append(w, byte(len(dest.Adr))), dest.Adr...)
		w = append(w, 255)
	}
	w = append(w, msg...)
	n := 4 + len(w)
	return append([]byte{0x81, function, byte(n >> 8), byte(n)}, w...)
}

func checkSent(most int, dest btypes.Address, want []byte, msg string) {
	Assert(len(line.sent) >= 1 && len(line.sent) <= most, "the number of messages is bounded")
	for i := range line.sent {
		Equal(line.sent[i], want, msg)
		Equal(line.to[i].Mac, dest.Mac, "the message is sent to the device")
	}
	Assert(taken == released, "the invoke id is released")
}

func W11_ReadLocal(id, a, b, c, d byte, port uint16, typ, instance, prop, index uint32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	cl := newClient(id)
	dev := btypes.Device{Addr: address(a, b, c, d, port), MaxApdu: 1476}
	_, err := cl.ReadProperty(dev, propertyData(typ, instance, prop, index, nil, 0))
	Assert(err != nil, "an answer that does not come is reported")
	checkSent(5, dev.Addr, datagram(0x0a, 4, dev.Addr, reference([]byte{0, 5, id, 12}, typ, instance, prop, index)), "the request to read")
}

func remote(net uint16, m byte, dev btypes.Address) btypes.Address {
	dev.Net, dev.Adr, dev.Len = net, []byte{m}, 1
	return dev
}

// A device behind a router: the datagram goes to the router as a unicast, the
// header has the network and the address of the device.
func W11_ReadRemote(id, a, b, c, d byte, port, net uint16, m byte, typ, instance, prop, index uint32) {
	typ, instance, prop, index = typ&0x3ff, instance&0x3fffff, prop&0xff, index&0xff
	cl := newClient(id)
	dev := btypes.Device{Addr: remote(net, m, address(a, b, c, d, port)), MaxApdu: 480}
	_, err := cl.ReadProperty(dev, propertyData(typ, instance, prop, index, nil, 0))
	Assert(err != nil, "an answer that does not come is reported")
	checkSent(5, dev.Addr, datagram(0x0a, 4, dev.Addr, reference([]byte{0, 5, id, 12}, typ, instance, prop, index)), "the request to read")
}

func writeOctets(id byte, typ, instance, prop, index uint32, v interface{}, prio byte) []byte {
	w := reference([]byte{0, 5, id, 15}, typ, instance, prop, index)
	w = closeT(append(open(w, 3), encoded(v, false)...), 3)
	if prio != 0 {
		w = ctx(w, 4, uint32(prio))
	}
	return w
}

func W11_Write(id, a, b, c, d byte, port, net uint16, m byte, typ, instance, prop uint32, v float32, prio byte, far bool) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0x3f
	cl := newClient(id)
	dev := btypes.Device{Addr: address(a, b, c, d, port), MaxApdu: 1476}
	if far {
		dev.Addr = remote(net, m, dev.Addr)
	}
	err := cl.WriteProperty(dev, propertyData(typ, instance, prop, noIndex, v, prio))
	Assert(err != nil, "an acknowledgement that does not come is reported")
	checkSent(5, dev.Addr, datagram(0x0a, 4, dev.Addr, writeOctets(id, typ, instance, prop, noIndex, v, prio)), "the request to write")
}

func W11_ReadMulti(id, a, b, c, d byte, port, net uint16, m byte, typ, instance, prop, prop2, index uint32, far bool) {
	typ, instance, prop, prop2, index = typ&0x3ff, instance&0x3fffff, prop&0xff, prop2&0xff, index&0xff
	cl := newClient(id)
	dev := btypes.Device{Addr: address(a, b, c, d, port), MaxApdu: 1476}
	if far {
		dev.Addr = remote(net, m, dev.Addr)
	}
	o := []btypes.Object{object(typ, instance, property(prop, index, nil, 0), property(prop2, noIndex, nil, 0)), object(8, 7, property(76, noIndex, nil, 0))}
	_, err := cl.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: o})
	Assert(err != nil, "an answer that does not come is reported")
	checkSent(5, dev.Addr, datagram(0x0a, 4, dev.Addr, access([]byte{0, 5, id, 14}, o, false)), "the request to read")
}

func W11_WriteMulti(id, a, b, c, d byte, port, net uint16, m byte, typ, instance uint32, v float32, prio byte, far bool) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	cl := newClient(id)
	dev := btypes.Device{Addr: address(a, b, c, d, port), MaxApdu: 1476}
	if far {
		dev.Addr = remote(net, m, dev.Addr)
	}
	o := []btypes.Object{object(typ, instance, property(85, noIndex, v, prio), property(81, noIndex, true, 0)), object(8, 7, property(85, noIndex, v, 0))}
	err := cl.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: o})
	Assert(err != nil, "an acknowledgement that does not come is reported")
	checkSent(5, dev.Addr, datagram(0x0a, 4, dev.Addr, access([]byte{0, 5, id, 16}, o, true)), "the request to write")
}

// A request to several properties that the device can not take is not sent.
func W11_TooLarge(id byte, max, typ, instance uint32, v float32) {
	cl := newClient(id)
	dev := btypes.Device{Addr: address(10, 0, 0, 7, 47808), MaxApdu: max}
	o := []btypes.Object{object(typ, instance, property(85, noIndex, v, 8))}
	_, err := cl.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: o})
	Assert(err != nil && taken == released, "the request to read fails")
	if max < 13 {
		Assert(len(line.sent) == 0, "a request to read that is too large is not sent")
	} else if max >= 15 { // with the network header of 2 octets
		Assert(len(line.sent) > 0, "a request to read that fits is sent")
	}
	line.sent = nil
	received = 0
	err = cl.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: o})
	Assert(err != nil && taken == released, "the request to write fails")
	if max < 22 {
		Assert(len(line.sent) == 0, "a request to write that is too large is not sent")
	} else if max >= 24 {
		Assert(len(line.sent) > 0, "a request to write that fits is sent")
	}
}

func nothing(err error) {
	Assert(err != nil, "the failure is reported")
	Assert(len(line.sent) == 0, "nothing is sent")
	Assert(taken == released, "the invoke id is released")
}

// What can not be encoded is not sent.
func W11_Invalid(id byte, instance uint32, v int64) {
	cl := newClient(id)
	dev := btypes.Device{Addr: address(10, 0, 0, 7, 47808), MaxApdu: 1476}
	bad := propertyData(2, 4194304, 85, noIndex, v, 0)
	_, err := cl.ReadProperty(dev, bad)
	nothing(err)
	nothing(cl.WriteProperty(dev, propertyData(2, instance&0x3fffff, 85, noIndex, v, 0)))
	_, err = cl.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{bad.Object}})
	nothing(err)
	nothing(cl.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{object(2, instance, property(85, noIndex, v, 0))}}))
}

// Without a free invoke id nothing is sent.
func W11_Busy(id byte, v float32) {
	cl := newClient(id)
	busy = true
	dev := btypes.Device{Addr: address(10, 0, 0, 7, 47808), MaxApdu: 1476}
	data := propertyData(2, 1, 85, noIndex, v, 0)
	_, err := cl.ReadProperty(dev, data)
	nothing(err)
	nothing(cl.WriteProperty(dev, data))
	multi := btypes.MultiplePropertyData{Objects: []btypes.Object{data.Object}}
	_, err = cl.ReadMultiProperty(dev, multi)
	nothing(err)
	nothing(cl.WriteMultiProperty(dev, multi))
}

func failed(err error) {
	Assert(err != nil, "the failure to send is reported")
	Assert(taken == released && received == 0, "no answer is awaited to what is not sent")
}

func W11_SendFails(id byte, v float32) {
	cl := newClient(id)
	line.fails = true
	dev := btypes.Device{Addr: address(10, 0, 0, 7, 47808), MaxApdu: 1476}
	data := propertyData(2, 1, 85, noIndex, v, 0)
	_, err := cl.ReadProperty(dev, data)
	failed(err)
	failed(cl.WriteProperty(dev, data))
	multi := btypes.MultiplePropertyData{Objects: []btypes.Object{data.Object}}
	_, err = cl.ReadMultiProperty(dev, multi)
	failed(err)
	failed(cl.WriteMultiProperty(dev, multi))
	failed(cl.IAm(dev.Addr, btypes.IAm{}))
}

func iam(typ, instance, maxApdu, seg, vendor uint32) []byte {
	w := put([]byte{0x10, 0, 0xc4}, typ<<22|instance, 4)
	return app(app(app(w, 2, maxApdu), 9, seg), 2, vendor)
}

func W11_IAm(a, b, c, d byte, port, net uint16, instance, vendor uint32, kind byte) {
	instance, vendor = instance&0x3fffff, vendor&0xffff
	cl := newClient(0)
	dest := address(a, b, c, d, port)
	function := byte(0x0a)
	switch kind {
	case 0:
		dest.MacLen = 0
		function = 0x0b
	case 1:
		dest.Net = 0xffff
		function = 0x0b
	case 2:
		dest = remote(net, 9, dest)
	}
	err := cl.IAm(dest, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, MaxApdu: 480, Segmentation: 3, Vendor: vendor})
	Assert(err == nil, "I-Am is sent")
	checkSent(1, dest, datagram(function, 0, dest, iam(8, instance, 480, 3, vendor)), "I-Am")
}

func W11_Network(id byte) {
	cl := newClient(id)
	cl.WhatIsNetworkNumber()
	Assert(low == 1 && high >= 65534, "the answers of all networks are awaited")
	checkSent(1, *line.broadcast, []byte{0x81, 0x0b, 0, 7, 1, 0x80, 0x12}, "What-Is-Network-Number")
	cl = newClient(id)
	cl.WhoIsRouterToNetwork()
	Assert(low == 1 && high >= 65534, "the answers of all networks are awaited")
	checkSent(1, *line.broadcast, []byte{0x81, 0x0b, 0, 7, 1, 0x80, 0}, "Who-Is-Router-To-Network")
}
