package thm

import (
	"math/big"
	"net"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/helpers/ipbytes"
)

// E03: addresses of devices that are described in words.

var (
	parsed   int
	written  string
	parsedIP net.IP
	digits   []byte
)

func netParseIP(s string) net.IP {
	parsed++
	written = s
	return parsedIP
}

func bigSetBytes(z *big.Int, b []byte) *big.Int {
	digits = b
	return z
}

func bigValue() uint64 {
	Assert(len(digits) == 4, "the address has four octets")
	return uint64(digits[0])<<24 | uint64(digits[1])<<16 | uint64(digits[2])<<8 | uint64(digits[3])
}

func bigInt64(z *big.Int) int64   { return int64(bigValue()) }
func bigUint64(z *big.Int) uint64 { return bigValue() }
func bigNew(x int64) *big.Int     { return new(big.Int) }
func bigBytes(z *big.Int) []byte  { return digits }

func E03_Octets(a, b, c, d byte, port uint16, ip string, long bool) {
	parsed, parsedIP = 0, ipOf(a, b, c, d, long)
	mac, err := ip2bytes.New(ip, port)
	Assert(err == nil, "the address is understood")
	Assert(parsed > 0 && written == ip, "the address is the one that is given")
	Equal(mac, []byte{a, b, c, d, byte(port >> 8), byte(port)}, "the octets are those of address and port, in network order")
}

func E03_Device(a, b, c, d, m byte, port, network uint16, instance, id, max uint32, ip string) {
	instance &= 0x3fffff
	id &= 0x3fffff
	parsed, parsedIP = 0, ipOf(a, b, c, d, true)
	dev, err := btypes.NewDevice(&btypes.Device{Ip: ip, Port: int(port), NetworkNumber: int(network), MacMSTP: int(m), MaxApdu: max, DeviceID: int(id), ID: btypes.ObjectID{Type: 0, Instance: btypes.ObjectInstance(instance)}})
	Assert(err == nil && dev != nil, "a device is made")
	Assert(parsed > 0 && written == ip, "the address is the one that is given")
	want := port
	if want == 0 {
		want = 47808
	}
	Equal(dev.Addr.Mac, []byte{a, b, c, d, byte(want >> 8), byte(want)}, "the device has this address and port")
	Assert(dev.Addr.Net == network, "the device is on this network")
	Equal(dev.Addr.Adr, []byte{m}, "the device is this station of the network")
	if instance == 0 {
		instance = id
	}
	Assert(dev.ID.Type == 8 && uint32(dev.ID.Instance) == instance, "the device is the device object of this instance, or of this device id")
	Assert(dev.Ip == ip && dev.MaxApdu == max && dev.NetworkNumber == int(network) && dev.MacMSTP == int(m), "the description stays")
	u, err := dev.Addr.UDPAddr()
	Assert(err == nil && u.Port == int(want), "messages are sent to this port")
	Equal(u.IP.To4(), []byte{a, b, c, d}, "messages are sent to this address")
}
