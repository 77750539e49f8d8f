package thm

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

// W13: Who-Is and the devices that answer.

func whoIs(l, h uint32) []byte { return ctx(ctx([]byte{0x10, 8}, 0, l), 1, h) }

func W13_Range(l, h uint32, net uint16, global bool) {
	l, h = l&0x1fffff, h&0x1fffff
	if h == 0 {
		return
	}
	cl := newClient(0)
	list, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: int(l), High: int(h), GlobalBroadcast: global, NetworkNumber: net})
	Assert(err == nil && len(list) == 0, "nobody answers")
	Assert(low == int(l) && high == int(h), "the answers of the range are awaited")
	dest := *line.broadcast
	dest.Net = net
	if global {
		dest.Net = 0xffff
	}
	checkSent(1, dest, broadcastOf(dest, whoIs(l, h)), "Who-Is")
	Assert(line.broadcast.Net == 0, "the broadcast address is not changed")
}

// broadcastOf: a broadcast to a network has no address.
func broadcastOf(dest btypes.Address, msg []byte) []byte {
	return datagram(0x0b, 0, btypes.Address{Net: dest.Net}, msg)
}

func W13_All(l, h int16) {
	Assume(l <= 0 && h <= 0)
	cl := newClient(0)
	_, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: int(l), High: int(h)})
	Assert(err == nil, "everybody is asked")
	Assert(low <= 0 && high >= 4194303, "the answers of all devices are awaited")
	checkSent(1, *line.broadcast, broadcastOf(btypes.Address{}, []byte{0x10, 8}), "Who-Is without limits")
}

func W13_SendFails(l, h uint32) {
	cl := newClient(0)
	line.fails = true
	_, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: int(l & 0xffff), High: int(h & 0xffff)})
	Assert(err != nil, "a Who-Is that is not sent is reported")
}

func iamOf(instance, maxApdu, seg, vendor uint32, from btypes.Address) btypes.IAm {
	return btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor, Addr: from}
}

func isDevice(d btypes.Device, instance, maxApdu, seg, vendor uint32, from btypes.Address) {
	Assert(uint32(d.DeviceID) == instance && uint32(d.ID.Instance) == instance && d.ID.Type == 8, "the device is that of I-Am")
	Assert(d.MaxApdu == maxApdu && uint32(d.Segmentation) == seg && d.Vendor == vendor, "its limits are those of I-Am")
	Equal(d.Addr.Mac, from.Mac, "its address is where I-Am came from")
	Equal(d.Addr.Adr, from.Adr, "its address behind a router is that of I-Am")
	Assert(d.Addr.Net == from.Net && d.NetworkNumber == int(from.Net), "its network is that of I-Am")
	Assert(d.Port == int(from.Mac[4])<<8+int(from.Mac[5]), "its port is that I-Am came from")
	if len(from.Adr) > 0 {
		Assert(d.MacMSTP == int(from.Adr[0]), "its station is that of I-Am")
	} else {
		Assert(d.MacMSTP == 0, "it has no station")
	}
}

func W13_Devices(instance, instance2, maxApdu, seg, vendor, vendor2 uint32, a, b byte, port, net uint16, m byte) {
	instance, instance2 = instance&0x3fffff, instance2&0x3fffff
	cl := newClient(0)
	from, from2 := address(10, 0, 0, a, port), remote(net, m, address(10, 0, 1, b, port))
	published = []interface{}{iamOf(instance, maxApdu, seg, vendor, from), 7, btypes.NPDU{}, iamOf(instance2, 480, 3, vendor2, from2), iamOf(instance, 50, 0, vendor2, from2)}
	list, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: 0, High: 4194303})
	Assert(err == nil, "devices answer")
	if instance == instance2 {
		Assert(len(list) == 1, "a device is listed once")
		isDevice(list[0], instance, maxApdu, seg, vendor, from)
		return
	}
	Assert(len(list) == 2, "two devices are listed")
	isDevice(list[0], instance, maxApdu, seg, vendor, from)
	isDevice(list[1], instance2, 480, 3, vendor2, from2)
}

// The answers of routers and of networks.
func W13_Networks(a, b, c uint16) {
	cl := newClient(0)
	published = []interface{}{[]btypes.Address{{Net: a}, {Net: b}}, 7, []btypes.Address{{Net: c}}}
	list := cl.WhoIsRouterToNetwork()
	Assert(list != nil && len(*list) == 3 && (*list)[0].Net == a && (*list)[1].Net == b && (*list)[2].Net == c, "the networks of all routers are listed")
	cl = newClient(0)
	published = []interface{}{btypes.NPDU{Source: &btypes.Address{Net: a}}, 7, btypes.NPDU{}, btypes.NPDU{Source: &btypes.Address{Net: b}}}
	nets := cl.WhatIsNetworkNumber()
	Assert(len(nets) == 2 && nets[0].Net == a && nets[1].Net == b, "the numbers of all networks are listed")
}
