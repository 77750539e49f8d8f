package thm

import (
	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"github.com/NubeDev/bacnet/network"
)

// Long lists: more elements than an octet counts, as a controller may have.

const many = 260

func manyObjects(v interface{}) []btypes.Object {
	var l []btypes.Object
	for i := uint32(0); i < many; i++ {
		o := object(i&7, i+1, property(85, noIndex, v, 0))
		if i == 100 {
			for p := uint32(1); p < many; p++ {
				o.Properties = append(o.Properties, property(p, p, v, 8))
			}
		}
		l = append(l, o)
	}
	return l
}

func W07_Many(id byte) {
	checkRead(id, manyObjects(nil)...)
}

func W07_ManyWritten(id byte) {
	checkWriteMulti(id, manyObjects(true)...)
}

func W08_Many(typ, instance uint32) {
	var w []byte
	for i := uint32(1); i <= many; i++ {
		w = put(append(w, 0xc4), i&7<<22|i, 4)
	}
	x, ok := readAnswer(typ, instance, 76, noIndex, w...).([]interface{})
	Assert(ok && len(x) == many, "all values are decoded")
	for i := uint32(1); i <= many; i++ {
		id, ok := x[i-1].(btypes.ObjectID)
		Assert(ok && uint32(id.Type) == i&7 && uint32(id.Instance) == i, "the values are decoded in order")
	}
}

func W09_Many(instance uint32) {
	var w []byte
	for i := uint32(0); i < many; i++ {
		var r []byte
		if i == 3 {
			var l []byte
			for p := uint32(1); p <= many; p++ {
				l = app(l, 2, p)
				r = result(r, p, p, app(nil, 2, p)...)
			}
			r = result(r, 87, noIndex, l...)
		}
		r = result(r, 85, noIndex, app(nil, 9, i)...)
		w = results(w, i&7, i, r...)
	}
	l := readMulti(w)
	Assert(len(l) == many, "all objects are decoded")
	for i := uint32(0); i < many; i++ {
		o := l[i]
		if i != 3 {
			isObject(o, i&7, i, 1)
			isNumber(o.Properties[0], 85, noIndex, i)
			continue
		}
		isObject(o, i&7, i, many+2)
		for p := uint32(1); p <= many; p++ {
			isNumber(o.Properties[p-1], p, p, p)
		}
		x, ok := o.Properties[many].Data.([]interface{})
		Assert(ok && len(x) == many, "all values are decoded")
		for p := uint32(1); p <= many; p++ {
			number(x[p-1], p)
		}
		isNumber(o.Properties[many+1], 85, noIndex, i)
	}
}

// The times of events, which are not application-tagged by themselves.
func W09_TimeStamps(typ, instance uint32, y, m, d, h, min, s, y2, h2 byte) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	stamp := func(y, h byte) []byte {
		w := open(nil, 2)
		w = append(append(w, 0xa4, y, m, d, 1), 0xb4, h, min, s, 9)
		return closeT(w, 2)
	}
	y, y2, m, d = y&0x7f, y2&0x7f, m&7, d&15
	l := readMulti(results(nil, typ, instance, result(nil, 130, noIndex, append(stamp(y, h), stamp(y2, h2)...)...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 1)
	x, ok := l[0].Properties[0].Data.([]interface{})
	Assert(ok && len(x) == 2, "two time stamps are decoded")
	for i, z := range x {
		t, ok := z.(*btypes.DataTime)
		Assert(ok, "a time stamp is decoded")
		a, b := y, h
		if i == 1 {
			a, b = y2, h2
		}
		Assert(t.Date.Year == int(a)+1900 && t.Date.Month == int(m) && t.Date.Day == int(d), "its date is decoded")
		Assert(t.Time.Hour == int(b) && t.Time.Minute == int(min) && t.Time.Second == int(s) && t.Time.Millisecond == 90, "its time is decoded")
	}
}

func W13_Many() {
	cl := newClient(0)
	for i := uint32(1); i <= many; i++ {
		published = append(published, iamOf(i, 480, 3, 7, address(10, 0, byte(i>>8), byte(i), 47808)))
	}
	list, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: 0, High: 4194303})
	Assert(err == nil && len(list) == many, "all devices are listed")
	for i := uint32(1); i <= many; i++ {
		isDevice(list[i-1], i, 480, 3, 7, address(10, 0, byte(i>>8), byte(i), 47808))
	}
}

func W15_AllOfMany(size byte) {
	list := make([]btypes.ObjectID, many)
	for i := range list {
		list[i] = btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(i)}
	}
	cl := newClient(1)
	dev, err := cl.Objects(theDevice(size, list))
	Assert(err == nil && dev.Objects.Len() == many, "all objects are there")
}

func N05_Many() {
	d := anyDevice(1, 2, 3)
	for i := uint32(1); i <= many; i++ {
		other.found = append(other.found, foundDevice(i, 480, 3, 0, 47808, byte(i), 0))
	}
	list, err := d.DeviceDiscover(&bacnet.WhoIsOpts{Low: 0, High: 4194303})
	Assert(err == nil && len(list) == many, "all devices are listed")
	for i := range list {
		Assert(list[i].DeviceID == i+1, "each as itself")
	}
}

func N05_ManyOfNetwork() {
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24, StoreID: "n"})
	Assert(n != nil && err == nil, "a network is made")
	for i := uint32(1); i <= many; i++ {
		other.found = append(other.found, foundDevice(i, 480, 3, 0, 47808, byte(i), 0))
	}
	list, err := n.NetworkDiscover(&bacnet.WhoIsOpts{Low: 0, High: 4194303})
	Assert(err == nil && len(list) == many, "all devices are listed")
	for i := range list {
		Assert(list[i].DeviceID == i+1, "each as itself")
	}
}

// A device that is described anew is asked at its new address.
func N06_Again(net, port, net2, port2 uint16, m, m2 byte) {
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24, StoreID: "n"})
	Assert(n != nil && err == nil, "a network is made")
	d, err := network.NewDevice(n, &network.Device{Ip: "192.168.1.30", Port: int(port), NetworkNumber: int(net), MacMSTP: int(m), StoreID: "d"})
	Assert(d != nil && err == nil, "a device is made")
	d.Port, d.NetworkNumber, d.MacMSTP = int(port2), int(net2), int(m2)
	err = n.Store.UpdateDevice("d", n, d)
	Assert(err == nil, "it is made anew")
	e, err := n.Store.GetDevice("d")
	Assert(e == d && err == nil, "it is found")
	other.answers = []interface{}{"name"}
	s, err := d.ReadDeviceName(7)
	Assert(s == "name" && err == nil && len(other.reads) == 1, "it is asked")
	isAsked(other.reads[0], net2, m2, port2, 8, 7, 77, 0xffffffff)
}

// The networks behind a router.
func W04_Many() {
	w := []byte{1, 0x80, 1}
	for i := uint32(1); i <= 100; i++ {
		w = put(w, 10*i, 2)
	}
	var n btypes.NPDU
	l, err := encoding.NewDecoder(w).NPDU(&n)
	Assert(err == nil && len(l) == 100, "all networks are listed")
	for i := range l {
		Assert(int(l[i].Net) == 10*(i+1), "in order")
	}
}
