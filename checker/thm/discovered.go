package thm

import (
	"errors"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
)

var kept map[string]interface{}

func cacheSet(c interface{}, k string, x interface{}, d time.Duration) {
	Assert(d < 0, "what is kept does not expire")
	kept[k] = x
}

func cacheGet(c interface{}, k string) (interface{}, bool) {
	x, ok := kept[k]
	return x, ok
}

// N06: networks and devices that are made and kept.

func N06_Network(port, subnet uint16, refused bool, iface, ip string) {
	other, kept = &peer{}, map[string]interface{}{}
	if refused {
		other.silent = errors.New("no such address")
	}
	n, err := network.New(&network.Network{Interface: iface, Ip: ip, Port: int(port), SubnetCIDR: int(subnet), StoreID: "n"})
	if refused {
		Assert(n == nil && err != nil && len(kept) == 0, "a network that can not be made is reported")
		return
	}
	Assert(n != nil && err == nil && n.Store != nil, "a network is made")
	b := other.builder
	Assert(b.Interface == iface && b.Ip == ip && b.Port == int(port) && b.SubnetCIDR == int(subnet), "its client is the one that is described")
	m, err := n.Store.GetNetwork("n")
	Assert(m == n && err == nil, "it is found")
	m, err = n.Store.GetNetwork("m")
	Assert(m == nil && err != nil, "no other is found")
	d, err := n.Store.GetDevice("n")
	Assert(d == nil && err != nil, "it is not a device")
	d, err = n.Store.GetDevice("m")
	Assert(d == nil && err != nil, "there is no device")
	n.NetworkRun()
	Assert(other.runs == 1, "it runs its client")
	err = n.NetworkClose(false)
	Assert(other.closes == 1 && err == nil, "it closes its client")
	other.wrong = errors.New("not closed")
	err = n.NetworkClose(false)
	Assert(other.closes == 2 && err != nil, "it reports an error")
}

func N06_Stored(port, subnet uint16, refused bool, iface, ip string) {
	other, kept = &peer{}, map[string]interface{}{}
	if refused {
		other.silent = errors.New("no such address")
	}
	s := network.NewStore()
	err := s.NewNetwork("n", iface, ip, int(port), int(subnet))
	n, notFound := s.GetNetwork("n")
	if refused {
		Assert(n == nil && err != nil && notFound != nil, "a network that can not be made is reported")
		return
	}
	Assert(n != nil && err == nil && notFound == nil, "it is found")
	b := other.builder
	Assert(b.Interface == iface && b.Ip == ip && b.Port == int(port) && b.SubnetCIDR == int(subnet), "its client is the one that is described")
	n.NetworkRun()
	Assert(other.runs == 1, "it runs its client")
	Assert(n.Interface == iface && n.Ip == ip && n.Port == int(port) && n.SubnetCIDR == int(subnet) && n.StoreID == "n", "it is as it was described")
	d, err := network.NewDevice(n, &network.Device{Ip: "192.168.1.30", StoreID: "d"})
	Assert(d != nil && err == nil, "a device is made")
	x, err := s.GetDevice("d")
	Assert(x == d && err == nil, "the device is kept in the store of its network")
}

func N06_Device(net, port uint16, m byte, update bool, seg, maxApdu, instance uint32) {
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24, StoreID: "n"})
	Assert(n != nil && err == nil, "a network is made")
	given := &network.Device{Ip: "192.168.1.30", Port: int(port), NetworkNumber: int(net), MacMSTP: int(m), StoreID: "d", MaxApdu: maxApdu, Segmentation: seg}
	if update {
		err = n.Store.UpdateDevice("d", n, given)
		Assert(err == nil, "a device is made")
	} else {
		d, err := network.NewDevice(n, given)
		Assert(d != nil && err == nil, "a device is made")
	}
	d, err := n.Store.GetDevice("d")
	Assert(d != nil && err == nil, "it is found")
	x, err := n.Store.GetNetwork("d")
	Assert(x == nil && err != nil, "it is not a network")
	other.answers = []interface{}{"name"}
	s, err := d.ReadDeviceName(btypes.ObjectInstance(instance))
	Assert(s == "name" && err == nil && len(other.reads) == 1, "it is asked with the client of the network")
	isAsked(other.reads[0], net, m, port, 8, instance, 77, 0xffffffff)
	Assert(d.MaxApdu == maxApdu && d.Segmentation == seg, "its limits are kept")
}

func N06_NoNetwork() {
	d, err := network.NewDevice(nil, &network.Device{Ip: "192.168.1.30"})
	Assert(d == nil && err != nil, "there is no device without a network")
}

// N05: discovery.

func foundDevice(instance, maxApdu, seg uint32, net, port uint16, last, station byte) btypes.Device {
	x := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, DeviceID: int(instance), MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg), NetworkNumber: int(net), Port: int(port), Ip: "192.168.1.30"}
	x.Addr = address(192, 168, 1, last, port)
	if net != 0 {
		x.Addr = remote(net, station, x.Addr)
		x.MacMSTP = int(station)
	}
	return x
}

func isFound(d *network.Device, instance, maxApdu, seg uint32, net, port uint16, station byte, name, vendor string) {
	Assert(d != nil && d.DeviceID == int(instance) && d.MaxApdu == maxApdu && d.Segmentation == seg, "the device is that of the answer")
	Assert(d.NetworkNumber == int(net) && d.Port == int(port), "its address is that of the answer")
	if net != 0 {
		Assert(d.MacMSTP == int(station), "its station is that of the answer")
	}
	Assert(d.DeviceName == name && d.VendorName == vendor, "its name and vendor are its own")
}

func N05_Devices(low, high, instance, instance2, maxApdu, maxApdu2, seg uint32, net, port uint16, a, station byte) {
	Assume(instance != instance2)
	d := anyDevice(1, 2, 3)
	other.found = []btypes.Device{foundDevice(instance, maxApdu, seg, 0, port, a, 0), foundDevice(instance2, maxApdu2, 3, net, 47808, 9, station)}
	other.about = []details{{instance, 50, 0, "one", "first", false}, {instance2, 60, 1, "two", "second", false}}
	list, err := d.DeviceDiscover(&bacnet.WhoIsOpts{Low: int(low), High: int(high)})
	Assert(err == nil && len(other.ranges) == 1 && other.ranges[0].Low == int(low) && other.ranges[0].High == int(high), "the range is asked")
	Assert(len(list) == 2, "both devices are listed")
	isFound(list[0], instance, maxApdu, seg, 0, port, 0, "one", "first")
	isFound(list[1], instance2, maxApdu2, 3, net, 47808, station, "two", "second")
	for _, r := range other.reads {
		Assert(r.typ == 8, "about its own device object")
		if r.instance == instance {
			Equal(r.to.Mac, []byte{192, 168, 1, a, byte(port >> 8), byte(port)}, "at its own address")
		} else {
			Assert(r.instance == instance2, "about its own device object")
			Equal(r.to.Mac, []byte{192, 168, 1, 9, 0xba, 0xc0}, "at its own address")
		}
	}
	n := len(other.reads)
	s, err := list[1].ReadDeviceName(btypes.ObjectInstance(instance2))
	Assert(s == "two" && err == nil && len(other.reads) == n+1, "it can be asked on")
	Equal(other.reads[n].to.Mac, []byte{192, 168, 1, 9, 0xba, 0xc0}, "at its own address")
}

func N05_Silent() {
	d := anyDevice(1, 2, 3)
	other.silent = errors.New("not sent")
	list, err := d.DeviceDiscover(&bacnet.WhoIsOpts{Low: 1, High: 2})
	Assert(len(list) == 0 && err != nil, "an error is reported")
}

func N05_Network(silent bool, low, high, instance, instance2, limit, limit2, seg, seg2 uint32, net, port uint16, station byte) {
	Assume(instance != instance2)
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24, StoreID: "n"})
	Assert(n != nil && err == nil, "a network is made")
	if silent {
		other.silent = errors.New("not sent")
	}
	other.found = []btypes.Device{foundDevice(instance, 1476, 0, 0, port, 30, 0), foundDevice(instance2, 480, 3, net, 47808, 30, station)}
	other.about = []details{{instance, limit, seg, "one", "first", false}, {instance2, limit2, seg2, "two", "second", false}}
	list, err := n.NetworkDiscover(&bacnet.WhoIsOpts{Low: int(low), High: int(high)})
	Assert(len(other.ranges) == 1 && other.ranges[0].Low == int(low) && other.ranges[0].High == int(high), "the range is asked")
	if silent {
		Assert(len(list) == 0 && err != nil, "an error is reported")
		return
	}
	Assert(err == nil && len(list) == 2, "both devices are listed")
	Assert(list[0].DeviceID == int(instance) && list[0].DeviceName == "one" && list[0].VendorName == "first" && list[0].MaxApdu == limit && uint32(list[0].Segmentation) == seg, "the first is itself")
	Assert(list[1].DeviceID == int(instance2) && list[1].DeviceName == "two" && list[1].VendorName == "second" && list[1].MaxApdu == limit2 && uint32(list[1].Segmentation) == seg2, "the second is itself")
	for _, r := range other.reads {
		Assert(r.typ == 8, "about its own device object")
		if r.instance == instance {
			Assert(r.to.Net == 0, "on its own network")
		} else {
			Assert(r.instance == instance2 && r.to.Net == net, "on its own network")
		}
	}
}

// N05_Unread: the limits a device announced stay with it when it does not
// tell them again.
func N05_Unread(unread, unread2 bool, instance, instance2, limit, limit2, seg, seg2 uint32, net uint16, station byte) {
	Assume(instance != instance2)
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24, StoreID: "n"})
	Assert(n != nil && err == nil, "a network is made")
	first := foundDevice(instance, 1476, 2, 0, 47808, 30, 0)
	second := foundDevice(instance2, 480, 3, net, 47808, 30, station)
	other.found = []btypes.Device{first, second}
	other.about = []details{{instance, limit, seg, "one", "first", unread}, {instance2, limit2, seg2, "two", "second", unread2}}
	list, err := n.NetworkDiscover(&bacnet.WhoIsOpts{Low: 1, High: 2})
	Assert(err == nil && len(list) == 2, "both devices are listed")
	isListed(list[0], first, other.about[0])
	isListed(list[1], second, other.about[1])
}

func isListed(d, announced btypes.Device, about details) {
	Assert(d.DeviceID == announced.DeviceID && d.NetworkNumber == announced.NetworkNumber, "the device is that of the answer")
	if about.unread {
		Assert(d.MaxApdu == announced.MaxApdu && d.Segmentation == announced.Segmentation, "its limits are those it announced")
		return
	}
	Assert(d.MaxApdu == about.limit && uint32(d.Segmentation) == about.seg, "its limits are those it told")
	Assert(d.DeviceName == about.name && d.VendorName == about.vendor, "its name and vendor are its own")
}
