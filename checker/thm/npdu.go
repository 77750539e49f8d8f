package thm

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/encoding"
)

// npduOctets is clause 6.2.2.
func npduOctets(n *btypes.NPDU) []byte {
	control := byte(n.Priority) & 3
	if n.IsNetworkLayerMessage {
		control |= 0x80
	}
	dest := n.Destination != nil && n.Destination.Net != 0
	src := n.Source != nil && n.Source.Net != 0
	if dest {
		control |= 0x20
	}
	if src {
		control |= 0x08
	}
	if n.ExpectingReply {
		control |= 0x04
	}
	w := []byte{n.Version, control}
	if dest {
		w = put(w, uint32(n.Destination.Net), 2)
		w = append(append(w, byte(len(n.Destination.Adr))), n.Destination.Adr...)
	}
	if src {
		w = put(w, uint32(n.Source.Net), 2)
		w = append(append(w, byte(len(n.Source.Adr))), n.Source.Adr...)
	}
	if dest {
		w = append(w, n.HopCount)
	}
	if n.IsNetworkLayerMessage {
		w = append(w, byte(n.NetworkLayerMessageType))
		if n.NetworkLayerMessageType >= 0x80 {
			w = put(w, uint32(n.VendorId), 2)
		}
	}
	return w
}

func checkNPDU(n *btypes.NPDU) {
	e := encoding.NewEncoder()
	e.NPDU(n)
	Assert(e.Error() == nil, "the header is encoded")
	Equal(e.Bytes(), npduOctets(n), "the octets of the header")
}

func W03_Local(version, prio, msg byte, vendor uint16, network, reply bool, hop byte) {
	checkNPDU(&btypes.NPDU{Version: version, Priority: btypes.NPDUPriority(prio & 3), IsNetworkLayerMessage: network,
		NetworkLayerMessageType: ndpu.NetworkMessageType(msg), VendorId: vendor, ExpectingReply: reply, HopCount: hop})
}

func W03_Destination(net uint16, adr, mac []byte, l, prio, msg byte, vendor uint16, network, reply bool, hop byte) {
	Assume(len(adr) < 256)
	checkNPDU(&btypes.NPDU{Version: 1, Destination: &btypes.Address{Net: net, Len: l, Adr: adr, Mac: mac, MacLen: byte(len(mac))}, Priority: btypes.NPDUPriority(prio & 3),
		IsNetworkLayerMessage: network, NetworkLayerMessageType: ndpu.NetworkMessageType(msg), VendorId: vendor, ExpectingReply: reply, HopCount: hop})
}

func W03_Source(net uint16, adr, mac []byte, l, prio byte, reply bool, hop byte) {
	Assume(len(adr) < 256)
	checkNPDU(&btypes.NPDU{Version: 1, Source: &btypes.Address{Net: net, Len: l, Adr: adr, Mac: mac}, Priority: btypes.NPDUPriority(prio & 3),
		ExpectingReply: reply, HopCount: hop})
}

func W03_Both(net, net2 uint16, adr, adr2 []byte, prio, msg byte, vendor uint16, network, reply bool, hop byte) {
	Assume(len(adr) < 256 && len(adr2) < 256)
	checkNPDU(&btypes.NPDU{Version: 1, Destination: &btypes.Address{Net: net, Adr: adr}, Source: &btypes.Address{Net: net2, Adr: adr2},
		Priority: btypes.NPDUPriority(prio & 3), IsNetworkLayerMessage: network, NetworkLayerMessageType: ndpu.NetworkMessageType(msg),
		VendorId: vendor, ExpectingReply: reply, HopCount: hop})
}

// W04: decoding what the standard says a header is.

func W04_Local(version, control, msg byte, vendor uint16, rest []byte) {
	control &= 0x07
	b := append([]byte{version, control}, rest...)
	d := encoding.NewDecoder(b)
	var n btypes.NPDU
	addr, err := d.NPDU(&n)
	Assert(err == nil, "a local header is decoded")
	Assert(n.Version == version && n.Priority == btypes.NPDUPriority(control&3), "version and priority are decoded")
	Assert(n.ExpectingReply == (control&4 != 0), "the expectation of a reply is decoded")
	Assert(!n.IsNetworkLayerMessage && n.Destination == nil && n.Source == nil && n.HopCount == 0 && len(addr) == 0, "nothing else is decoded")
	Equal(d.Bytes(), rest, "the APDU follows")
}

func W04_Routed(control byte, dnet, snet uint16, dadr, sadr []byte, hop byte, rest []byte) {
	Assume(len(dadr) < 256 && len(sadr) < 256)
	control &= 0x2f
	b := []byte{1, control}
	if control&0x20 != 0 {
		b = put(b, uint32(dnet), 2)
		b = append(append(b, byte(len(dadr))), dadr...)
	}
	if control&0x08 != 0 {
		b = put(b, uint32(snet), 2)
		b = append(append(b, byte(len(sadr))), sadr...)
	}
	if control&0x20 != 0 {
		b = append(b, hop)
	}
	b = append(b, rest...)
	d := encoding.NewDecoder(b)
	var n btypes.NPDU
	_, err := d.NPDU(&n)
	Assert(err == nil, "a routed header is decoded")
	Equal(d.Bytes(), rest, "the APDU follows")
	if control&0x20 != 0 {
		Assert(n.Destination != nil && n.Destination.Net == dnet && int(n.Destination.Len) == len(dadr), "the destination is decoded")
		Equal(n.Destination.Adr, dadr, "the destination is decoded")
		Assert(n.HopCount == hop, "the hop count is decoded")
	} else {
		Assert(n.Destination == nil && n.HopCount == 0, "there is no destination")
	}
	if control&0x08 != 0 {
		Assert(n.Source != nil && n.Source.Net == snet && int(n.Source.Len) == len(sadr), "the source is decoded")
		Equal(n.Source.Adr, sadr, "the source is decoded")
	} else {
		Assert(n.Source == nil, "there is no source")
	}
}

func W04_Message(msg byte, vendor uint16, reply bool, rest []byte) {
	control := byte(0x80)
	if reply {
		control |= 4
	}
	b := []byte{1, control, msg}
	if msg >= 0x80 {
		b = put(b, uint32(vendor), 2)
	}
	if msg == 1 || msg == 0x13 {
		return
	}
	d := encoding.NewDecoder(append(b, rest...))
	var n btypes.NPDU
	addr, err := d.NPDU(&n)
	Assert(err == nil && n.IsNetworkLayerMessage && n.ExpectingReply == reply, "a network layer message is decoded")
	Assert(byte(n.NetworkLayerMessageType) == msg && len(addr) == 0, "its type is decoded")
	if msg >= 0x80 {
		Assert(n.VendorId == vendor, "its vendor is decoded")
	}
	Equal(d.Bytes(), rest, "the rest follows")
}

func W04_NetworkIs(net uint16, flag byte) {
	d := encoding.NewDecoder([]byte{1, 0x80, 0x13, byte(net >> 8), byte(net), flag})
	var n btypes.NPDU
	_, err := d.NPDU(&n)
	Assert(err == nil && n.NetworkLayerMessageType == ndpu.NetworkIs, "Network-Number-Is is decoded")
	Assert(n.Source != nil && n.Source.Net == net, "the network number is decoded")
}

func W04_Routers(a, b, c uint16) {
	d := encoding.NewDecoder([]byte{1, 0x80, 1, byte(a >> 8), byte(a)})
	var n btypes.NPDU
	l, err := d.NPDU(&n)
	Assert(err == nil && n.NetworkLayerMessageType == ndpu.IamRouterToNetwork && len(l) == 1 && l[0].Net == a, "one network is decoded")
	d = encoding.NewDecoder([]byte{1, 0x80, 1, byte(a >> 8), byte(a), byte(b >> 8), byte(b)})
	l, err = d.NPDU(&n)
	Assert(err == nil && len(l) >= 1 && l[0].Net == a, "the first of two networks is decoded")
	if a == b {
		Assert(len(l) == 1, "a network is listed once")
	} else {
		Assert(len(l) == 2 && l[1].Net == b, "the second of two networks is decoded")
	}
	d = encoding.NewDecoder([]byte{1, 0x80, 1, byte(a >> 8), byte(a), byte(b >> 8), byte(b), byte(c >> 8), byte(c)})
	l, err = d.NPDU(&n)
	if a != b && b != c && a != c {
		Assert(err == nil && len(l) == 3 && l[0].Net == a && l[1].Net == b && l[2].Net == c, "three networks are decoded")
	}
	if a != b && c == a {
		Assert(err == nil && len(l) == 2 && l[0].Net == a && l[1].Net == b, "a repeated network is listed once")
	}
}
