package thm

import (
	"errors"
	"fmt"
	"net"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
)

// The sockets of the data link.

var (
	cidr      string // the address that is parsed
	cidrIP    net.IP
	cidrNet   *net.IPNet
	noCIDR    bool
	opened    []int // ports
	noSocket  bool
	closed    int
	packets   [][]byte
	packetsTo []net.UDPAddr
	noPacket  bool
	arrived   []byte
	arrivedOf *net.UDPAddr
	socket    *net.UDPConn
)

func quiet() {
	cidr, noCIDR, opened, noSocket, closed, packets, packetsTo, noPacket, arrived, arrivedOf, socket = "", false, nil, false, 0, nil, nil, false, nil, nil, nil
}

func netParseCIDR(s string) (net.IP, *net.IPNet, error) {
	cidr = s
	switch s {
	case "10.0.0.1/8":
		return ipOf(10, 0, 0, 1, true), &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.IPMask{255, 0, 0, 0}}, nil
	case "172.16.0.1/16":
		return ipOf(172, 16, 0, 1, true), &net.IPNet{IP: net.IP{172, 16, 0, 0}, Mask: net.IPMask{255, 255, 0, 0}}, nil
	case "fe80::1/64":
		return net.IP{0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, &net.IPNet{}, nil
	}
	if noCIDR {
		return nil, nil, errors.New("no address")
	}
	return cidrIP, cidrNet, nil
}

func netResolve(network, address string) (*net.UDPAddr, error) {
	for _, p := range ports {
		if address == fmt.Sprintf(":%d", p) {
			return &net.UDPAddr{Port: p}, nil
		}
	}
	return nil, errors.New("no port")
}

var ports []int

func netListen(network string, a *net.UDPAddr) (*net.UDPConn, error) {
	if network != "udp4" {
		Assert(a.IP.To4() != nil, "the socket is for IPv4")
	}
	opened = append(opened, a.Port)
	if noSocket {
		return nil, errors.New("port is taken")
	}
	socket = &net.UDPConn{}
	return socket, nil
}

func connClose(c interface{}) error { closed++; return nil }

func connSend(c *net.UDPConn, b []byte, to *net.UDPAddr) (int, error) {
	Assert(c == socket, "the socket is its own")
	packets = append(packets, b)
	packetsTo = append(packetsTo, *to)
	if noPacket {
		return 0, errors.New("network is down")
	}
	return len(b), nil
}

func connWriteTo(c *net.UDPConn, b []byte, to net.Addr) (int, error) {
	a, ok := to.(*net.UDPAddr)
	Assert(ok, "the destination is an address of UDP")
	return connSend(c, b, a)
}

func connRead(c *net.UDPConn, b []byte) (int, *net.UDPAddr, error) {
	Assert(c == socket, "the socket is its own")
	if noPacket {
		return 0, nil, errors.New("network is down")
	}
	return copy(b, arrived), arrivedOf, nil
}

func connReadFrom(c *net.UDPConn, b []byte) (int, net.Addr, error) {
	n, a, err := connRead(c, b)
	if err != nil {
		return n, nil, err
	}
	return n, a, nil
}

func ipOf(a, b, c, d byte, long bool) net.IP {
	if long {
		return net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, a, b, c, d}
	}
	return net.IP{a, b, c, d}
}

func newLink(a, b, c, d, k, l, m, n byte, port int) (datalink.DataLink, error) {
	cidrIP = ipOf(a, b, c, d, true)
	cidrNet = &net.IPNet{IP: net.IP{a & k, b & l, c & m, d & n}, Mask: net.IPMask{k, l, m, n}}
	ports = []int{port, 47808}
	return datalink.NewUDPDataLinkFromIP("1.2.3.4", 24, port)
}

func isAt(got *btypes.Address, a, b, c, d byte, port int, msg string) {
	Assert(got != nil && got.MacLen == 6 && got.Net == 0 && len(got.Adr) == 0, msg)
	Equal(got.Mac, []byte{a, b, c, d, byte(port >> 8), byte(port)}, msg)
}

// E01: addresses.

func E01_ToAddress(a, b, c, d byte, port uint16, long bool) {
	isAt(datalink.IPPortToAddress(ipOf(a, b, c, d, long), int(port)), a, b, c, d, int(port), "the address has the octets of IP address and port")
	isAt(datalink.UDPToAddress(&net.UDPAddr{IP: ipOf(a, b, c, d, false), Port: int(port)}), a, b, c, d, int(port), "the address has the octets of IP address and port")
}

func E01_FromAddress(a, b, c, d byte, port, network uint16, n, x byte) {
	from := btypes.Address{Mac: []byte{a, b, c, d, byte(port >> 8), byte(port)}, Net: network, MacLen: n, Len: 1, Adr: []byte{x}}
	u, err := from.UDPAddr()
	Assert(err == nil && u.Port == int(port), "the port is that of the address")
	Equal(u.IP.To4(), []byte{a, b, c, d}, "the IP address is that of the address")
	isAt(datalink.IPPortToAddress(u.IP, u.Port), a, b, c, d, int(port), "the address is the same again")
}

func E01_Short(mac []byte) {
	if len(mac) == 6 {
		return
	}
	a := btypes.Address{Mac: mac}
	_, err := a.UDPAddr()
	Assert(err != nil, "an address of another length is reported")
}

// maskOf has the first n bits set.
func maskOf(n byte) (m [4]byte) {
	for i := range m {
		for j := 0; j < 8; j++ {
			if i*8+j < int(n) {
				m[i] |= 0x80 >> j
			}
		}
	}
	return
}

func E01_Link(a, b, c, d, prefix byte, port uint16) {
	for i := byte(0); i <= 32; i++ {
		if prefix == i {
			linkOf(a, b, c, d, maskOf(i), port)
		}
	}
}

func linkOf(a, b, c, d byte, m [4]byte, port uint16) {
	quiet()
	link, err := newLink(a, b, c, d, m[0], m[1], m[2], m[3], int(port))
	want := int(port)
	if want == 0 {
		want = 47808
	}
	Assert(err == nil && link != nil, "a data link is made")
	Assert(cidr == "1.2.3.4/24", "its address is the one that is given")
	Assert(len(opened) == 1 && opened[0] == want, "its socket has the port that is given")
	isAt(link.GetMyAddress(), a, b, c, d, want, "its own address has this port")
	isAt(link.GetBroadcastAddress(), a|^m[0], b|^m[1], c|^m[2], d|^m[3], 47808, "its broadcast address is that of the subnet")
	Assert(closed == 0, "its socket is open")
	err = link.Close()
	Assert(err == nil && closed == 1, "its socket is closed")
}

func E01_Refused(how byte, port int) {
	quiet()
	switch how {
	case 0: // an IPv6 address
		cidrIP = net.IP{0x20, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}
		cidrNet = &net.IPNet{IP: net.IP{0x20, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, Mask: net.IPMask{255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0}}
		ports = []int{47808}
		link, err := datalink.NewUDPDataLinkFromIP("2001::1", 64, 47808)
		Assert(link == nil && err != nil && len(opened) == closed, "an IPv6 address is rejected")
	case 1:
		noCIDR = true
		link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
		Assert(link == nil && err != nil && len(opened) == closed, "what is not an address is rejected")
	case 2:
		noSocket = true
		link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
		Assert(link == nil && err != nil, "a socket that can not be opened is reported")
	case 3:
		if port >= 0 && port <= 0xffff {
			return
		}
		link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, port)
		Assert(link == nil && err != nil && len(opened) == closed, "what is not a port is rejected")
	}
}

type ifAddr string

func (a ifAddr) Network() string { return "ip+net" }
func (a ifAddr) String() string  { return string(a) }

var (
	addrs   []net.Addr
	noAddrs bool
)

func netInterface(name string) (*net.Interface, error) {
	if name != "eth0" {
		return nil, errors.New("no such interface")
	}
	return &net.Interface{Name: name}, nil
}

func netAddrs(i *net.Interface) ([]net.Addr, error) {
	if noAddrs {
		return nil, errors.New("no addresses")
	}
	return addrs, nil
}

// E01_Interface: the first IPv4 address of an interface is used.
func E01_Interface(how byte, port uint16) {
	quiet()
	ports = []int{int(port), 47808}
	noAddrs = false
	name := "eth0"
	ok := false
	switch how {
	case 0:
		addrs, ok = []net.Addr{ifAddr("10.0.0.1/8")}, true
	case 1:
		addrs, ok = []net.Addr{ifAddr("fe80::1/64"), ifAddr("10.0.0.1/8"), ifAddr("172.16.0.1/16")}, true
	case 2:
		addrs = []net.Addr{ifAddr("fe80::1/64")}
	case 3:
		addrs = nil
	case 4:
		noAddrs = true
	case 5:
		name = "eth1"
		addrs = []net.Addr{ifAddr("10.0.0.1/8")}
	case 6:
		name, ok = "10.0.0.1/8", true
	case 7:
		name, noCIDR = "10.0.0/8", true
	case 8:
		name, noSocket = "10.0.0.1/8", true
	case 9:
		addrs, noSocket = []net.Addr{ifAddr("10.0.0.1/8")}, true
	default:
		return
	}
	link, err := datalink.NewUDPDataLink(name, int(port))
	if !ok {
		Assert(link == nil && err != nil && (noSocket || len(opened) == 0), "an interface without an IPv4 address is reported")
		return
	}
	want := int(port)
	if want == 0 {
		want = 47808
	}
	Assert(link != nil && err == nil && len(opened) == 1 && opened[0] == want, "a data link is made on the port")
	isAt(link.GetMyAddress(), 10, 0, 0, 1, want, "its own address is the first of the interface")
	isAt(link.GetBroadcastAddress(), 10, 255, 255, 255, 47808, "its broadcast address is that of the subnet")
}

// A client opens the data link that its builder describes.
func E01_Client(how byte, port uint16, all, logs bool) {
	quiet()
	noCIDR = true
	ports = []int{int(port), 47808}
	noAddrs, addrs = false, []net.Addr{ifAddr("172.16.0.1/16")}
	want := int(port)
	if want == 0 {
		want = 47808
	}
	b := &bacnet.ClientBuilder{Port: int(port)}
	ok := true
	switch how {
	case 0:
		b.Ip, b.SubnetCIDR = "10.0.0.1", 8
	case 1:
		b.Interface = "eth0"
	case 2:
		b.Ip, b.SubnetCIDR = "10.0.0", 8
		ok = false
	case 3:
		b.Interface = "eth1"
		ok = false
	case 4:
		noSocket = true
		b.Ip, b.SubnetCIDR = "10.0.0.1", 8
		ok = false
	default:
		return
	}
	c, err := bacnet.NewClient(b)
	if !ok {
		Assert(c == nil && err != nil && (noSocket || len(opened) == closed), "a data link that can not be opened is reported")
		return
	}
	Assert(c != nil && err == nil && len(opened) == 1 && opened[0] == want, "a client opens one data link on the port")
	if all {
		err = c.ClientClose(logs)
		Assert(closed == 1, "a client closes its data link, whether it closes its log or not")
		Assert(logs || err == nil, "a client is closed")
		return
	}
	err = c.Close()
	Assert(err == nil && closed == 1, "a client closes its data link")
}

// E02: datagrams.

func E02_Send(a, b, c, d byte, port uint16, down bool, data []byte) {
	quiet()
	link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
	Assert(err == nil && link != nil, "a data link is made")
	noPacket = down
	dest := btypes.Address{Mac: []byte{a, b, c, d, byte(port >> 8), byte(port)}, MacLen: 6}
	n, err := link.Send(data, nil, &dest)
	Assert(len(packets) == 1, "one datagram is sent")
	Equal(packets[0], data, "it has the octets that are given")
	Equal(packetsTo[0].IP.To4(), []byte{a, b, c, d}, "it is sent to the address that is given")
	Assert(packetsTo[0].Port == int(port), "it is sent to the port that is given")
	if down {
		Assert(err != nil, "a failure is reported")
	} else {
		Assert(err == nil && n == len(data), "the number of octets is returned")
	}
}

func E02_Nowhere(mac, data []byte) {
	quiet()
	if len(mac) == 6 {
		return
	}
	link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
	Assert(err == nil && link != nil, "a data link is made")
	_, err = link.Send(data, nil, &btypes.Address{Mac: mac})
	Assert(err != nil && len(packets) == 0, "nothing is sent to what is not an address")
}

func E02_Receive(a, b, c, d byte, port uint16, long, down bool, data []byte) {
	quiet()
	link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
	Assert(err == nil && link != nil, "a data link is made")
	noPacket = down
	arrived, arrivedOf = data, &net.UDPAddr{IP: ipOf(a, b, c, d, long), Port: int(port)}
	buf := make([]byte, 1500)
	from, n, err := link.Receive(buf)
	if down {
		Assert(err != nil, "a failure is reported")
		return
	}
	Assert(err == nil && (n == len(data) || n == 1500 && len(data) > 1500), "the number of octets is returned")
	isAt(from, a, b, c, d, int(port), "the address is that of the sender")
	if len(data) <= 1500 {
		Equal(buf[:n], data, "the octets are those of the datagram")
	}
}

// Datagrams one after the other: what came with the first stays what it was.
func E02_Again(a, b, c, d, e byte, port, port2 uint16, long, down bool, data, data2 []byte) {
	Assume(len(data) <= 1500 && len(data2) <= 1500)
	quiet()
	link, err := newLink(10, 0, 0, 1, 255, 0, 0, 0, 47808)
	Assert(err == nil && link != nil, "a data link is made")
	arrived, arrivedOf = data, &net.UDPAddr{IP: ipOf(a, b, c, d, long), Port: int(port)}
	first := make([]byte, 1500)
	from, n, err := link.Receive(first)
	Assert(err == nil && n == len(data), "the first datagram is received")
	arrived, arrivedOf, noPacket = data2, &net.UDPAddr{IP: ipOf(e, c, b, a, long), Port: int(port2)}, down
	second := make([]byte, 1500)
	from2, n2, err := link.Receive(second)
	isAt(from, a, b, c, d, int(port), "the address of the first sender stays")
	Equal(first[:n], data, "the octets of the first datagram stay")
	if down {
		Assert(err != nil, "a failure is reported")
		return
	}
	Assert(err == nil && n2 == len(data2), "the second datagram is received")
	isAt(from2, e, c, b, a, int(port2), "the address is that of the second sender")
	Equal(second[:n2], data2, "the octets are those of the second datagram")
	sent, err := link.Send(first[:n], nil, from2)
	Assert(err == nil && sent == n, "the first datagram is sent to the second sender")
	sent, err = link.Send(second[:n2], nil, from)
	Assert(err == nil && sent == n2 && len(packets) == 2, "the second datagram is sent to the first sender")
	Equal(packets[0], data, "it has the octets that are given")
	Equal(packets[1], data2, "it has the octets that are given")
	Equal(packetsTo[0].IP.To4(), []byte{e, c, b, a}, "it is sent to the address that is given")
	Equal(packetsTo[1].IP.To4(), []byte{a, b, c, d}, "it is sent to the address that is given")
	Assert(packetsTo[0].Port == int(port2) && packetsTo[1].Port == int(port), "it is sent to the port that is given")
	isAt(from, a, b, c, d, int(port), "the address that is given stays")
}

// What an address is meant for.
func E01_Kinds(network uint16, length byte, mac, adr []byte) {
	Assume(len(mac) <= 18 && len(adr) <= 18)
	a := &btypes.Address{Net: network, Len: length, Mac: mac, Adr: adr, MacLen: 6}
	a.SetBroadcast(true)
	Assert(a.IsBroadcast() && !a.IsUnicast(), "an address that is made a broadcast is one, and of no device")
	a.SetBroadcast(false)
	Assert(a.IsBroadcast() == (network == 0xffff || len(mac) == 0), "an address is a broadcast if it is for all networks, or has no octets")
	Assert(a.IsUnicast() == (len(mac) == 6), "an address of BACnet/IP is that of a device")
	Equal(a.Mac, mac, "the octets of the address stay")
	Assert(a.IsSubBroadcast() == (network != 0 && length == 0), "a network without a station is a broadcast on it")
	a.SetLength()
	if len(adr) > 0 {
		Assert(int(a.Len) == len(adr), "the length of a station is that of its address")
		Assert(!a.IsSubBroadcast(), "a station is not a broadcast")
	}
	Assert(a.Net == network, "the network of the address stays")
	Equal(a.Adr, adr, "the station stays")
}
