package thm

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/helpers/data"
	"github.com/NubeDev/bacnet/network"
)

// The package network is analysed with a client that keeps what it is asked.

type asked struct {
	to                    btypes.Address
	typ, instance         uint32
	prop, index, priority uint32
	properties            int
	data                  interface{}
}

type peer struct {
	reads, writes []asked
	answers       []interface{} // the data of the answers to reads, or an error
	wrong         error         // the answer to writes
	ranges        []bacnet.WhoIsOpts
	found         []btypes.Device
	silent        error // of WhoIs
	builder       bacnet.ClientBuilder
	runs, closes  int
	about         []details // what devices say about themselves
}

type details struct {
	instance, limit, seg uint32
	name, vendor         string
	unread               bool
}

func (p *peer) Close() error                     { p.closes++; return p.wrong }
func (p *peer) ClientClose(closeLogs bool) error { p.closes++; return p.wrong }
func (p *peer) ClientRun()                       { p.runs++ }
func (p *peer) WhoIs(wh *bacnet.WhoIsOpts) ([]btypes.Device, error) {
	p.ranges = append(p.ranges, *wh)
	if p.silent != nil {
		return nil, p.silent
	}
	return p.found, nil
}
func (p *peer) WhatIsNetworkNumber() []*btypes.Address           { return nil }
func (p *peer) IAm(dest btypes.Address, iam btypes.IAm) error    { return nil }
func (p *peer) WhoIsRouterToNetwork() (resp *[]btypes.Address)   { return nil }
func (p *peer) Objects(dev btypes.Device) (btypes.Device, error) { return dev, nil }
func (p *peer) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropertyData) error {
	Assert(false, "no other request is sent")
	return nil
}
func (p *peer) ReadMultiProperty(dev btypes.Device, rp btypes.MultiplePropertyData) (btypes.MultiplePropertyData, error) {
	Assert(false, "no other request is sent")
	return rp, nil
}

func requestOf(dev btypes.Device, rp btypes.PropertyData) asked {
	a := asked{to: dev.Addr, typ: uint32(rp.Object.ID.Type), instance: uint32(rp.Object.ID.Instance), properties: len(rp.Object.Properties)}
	if a.properties > 0 {
		x := rp.Object.Properties[0]
		a.prop, a.index, a.priority, a.data = uint32(x.Type), x.ArrayIndex, uint32(x.Priority), x.Data
	}
	return a
}

func (p *peer) ReadProperty(dest btypes.Device, rp btypes.PropertyData) (btypes.PropertyData, error) {
	i := len(p.reads)
	p.reads = append(p.reads, requestOf(dest, rp))
	for _, x := range p.about {
		if x.instance != uint32(rp.Object.ID.Instance) {
			continue
		}
		if x.unread {
			return btypes.PropertyData{}, errors.New("no answer")
		}
		var data interface{}
		switch rp.Object.Properties[0].Type {
		case 77:
			data = x.name
		case 62:
			data = x.limit
		case 121:
			data = x.vendor
		case 107:
			data = x.seg
		}
		return btypes.PropertyData{Object: btypes.Object{ID: rp.Object.ID, Properties: []btypes.Property{{Type: rp.Object.Properties[0].Type, ArrayIndex: 0xffffffff, Data: data}}}}, nil
	}
	if i >= len(p.answers) {
		return btypes.PropertyData{}, errors.New("no answer")
	}
	if err, ok := p.answers[i].(error); ok {
		return btypes.PropertyData{}, err
	}
	if _, ok := p.answers[i].(noProperty); ok {
		return btypes.PropertyData{Object: btypes.Object{ID: rp.Object.ID}}, nil
	}
	return btypes.PropertyData{Object: btypes.Object{ID: rp.Object.ID, Properties: []btypes.Property{{Type: rp.Object.Properties[0].Type, ArrayIndex: rp.Object.Properties[0].ArrayIndex, Data: p.answers[i]}}}}, nil
}

func (p *peer) WriteProperty(dest btypes.Device, wp btypes.PropertyData) error {
	p.writes = append(p.writes, requestOf(dest, wp))
	return p.wrong
}

// noProperty is the answer without a property.
type noProperty struct{}

var other *peer

func bacnetNew(cb *bacnet.ClientBuilder) (bacnet.Client, error) {
	if other.silent != nil {
		return nil, other.silent
	}
	other.builder = *cb
	return other, nil
}

func ipNew(ip string, port uint16) ([]uint8, error) {
	return []uint8{192, 168, 1, byte(len(ip)), byte(port >> 8), byte(port)}, nil
}

func anyDevice(net uint16, m byte, port uint16) *network.Device {
	other, kept = &peer{}, map[string]interface{}{}
	n, err := network.New(&network.Network{Ip: "192.168.1.2", SubnetCIDR: 24})
	Assert(err == nil && n != nil, "a network is made")
	d, err := network.NewDevice(n, &network.Device{Ip: "192.168.1.30", Port: int(port), NetworkNumber: int(net), MacMSTP: int(m), DeviceID: 7})
	Assert(err == nil && d != nil, "a device is made")
	return d
}

func isAsked(a asked, net uint16, m byte, port uint16, typ, instance, prop, index uint32) {
	p := uint32(port)
	if p == 0 {
		p = 0xbac0
	}
	Equal(a.to.Mac, []byte{192, 168, 1, 12, byte(p >> 8), byte(p)}, "the request goes to the device's address")
	Equal(a.to.Adr, []byte{m}, "the request goes to the device's station")
	Assert(a.to.Net == net, "the request goes to the device's network")
	Assert(a.typ == typ && a.instance == instance, "the request names the object")
	Assert(a.properties == 1 && a.prop == prop && a.index == index, "the request names the property")
}

// value is some data that an answer has.
func value(kind byte, v uint32, f float32, s string) interface{} {
	switch kind {
	case 0:
		return v
	case 1:
		return f
	case 2:
		return s
	case 3:
		return null.Null{}
	case 4:
		return nil
	case 5:
		return true
	case 6:
		return int32(v)
	case 7:
		return float64(f)
	case 8:
		return btypes.ObjectID{Instance: btypes.ObjectInstance(v)}
	case 9:
		return []interface{}{v}
	case 10:
		return noProperty{}
	}
	return errors.New("refused")
}

func N01_Read(kind, m byte, net, port uint16, typ, instance, prop, index, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(net, m, port)
	other.answers = []interface{}{value(kind, v, f, s)}
	out, err := d.Read(&network.Object{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), Prop: btypes.PropertyType(prop), ArrayIndex: index})
	Assert(len(other.reads) == 1 && len(other.writes) == 0, "one request is sent")
	isAsked(other.reads[0], net, m, port, typ, instance, prop, index)
	if kind > 10 {
		Assert(err != nil, "an error is reported")
		return
	}
	if kind == 10 {
		Assert(len(out.Object.Properties) == 0, "no value is made up")
		return
	}
	Assert(err == nil && len(out.Object.Properties) == 1, "the answer is returned")
	Same(out.Object.Properties[0].Data, other.answers[0], "the value is that of the answer")
}

func N01_Nothing() {
	d := anyDevice(1, 2, 3)
	_, err := d.Read(nil)
	Assert(err != nil && len(other.reads) == 0, "nothing is asked")
}

func N01_Float(kind byte, typ, instance, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{value(kind, v, f, s)}
	got, err := d.PointReadFloat32(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)})
	Assert(len(other.reads) == 1 && len(other.writes) == 0, "one request is sent")
	isAsked(other.reads[0], 1, 2, 3, typ, instance, 85, 0xffffffff)
	if kind == 1 {
		Assert(err == nil, "a value is returned")
		Same(got, f, "the value is that of the answer")
		return
	}
	Assert(err != nil, "a value that is not a number is not made one")
}

func N01_Number(kind byte, multi bool, typ, instance, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{value(kind, v, f, s)}
	var got uint32
	var err error
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)}
	if multi {
		got, err = d.PointReadMultiState(pnt)
	} else {
		got, err = d.PointReadBool(pnt)
	}
	Assert(len(other.reads) == 1 && len(other.writes) == 0, "one request is sent")
	isAsked(other.reads[0], 1, 2, 3, typ, instance, 85, 0xffffffff)
	if kind == 0 {
		Assert(err == nil && got == v, "the value is that of the answer")
		return
	}
	Assert(err != nil, "a value that is not a number is not made one")
}

func N01_Names(kind, how byte, typ, instance, prop, index, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{value(kind, v, f, s)}
	var got string
	var err error
	switch how {
	case 0:
		got, err = d.ReadString(&network.Object{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), Prop: btypes.PropertyType(prop), ArrayIndex: index})
	case 1:
		got, err = d.ReadDeviceName(btypes.ObjectInstance(instance))
		typ, prop, index = 8, 77, 0xffffffff
	case 2:
		got, err = d.ReadPointName(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)})
		prop, index = 77, 0xffffffff
	default:
		return
	}
	Assert(len(other.reads) == 1 && len(other.writes) == 0, "one request is sent")
	isAsked(other.reads[0], 1, 2, 3, typ, instance, prop, index)
	if kind == 2 {
		Assert(err == nil && got == s, "the text is that of the answer")
		return
	}
	Assert(err != nil, "a value that is not a text is not made one")
}

// What the value of an answer is, and whether it is of a type.
func N01_Types(kind byte, v uint32, f float32, s string) {
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{value(kind, v, f, s)}
	out, err := d.Read(&network.Object{})
	if err != nil {
		return
	}
	ok, b := data.ToBool(out)
	Assert(ok == (kind == 5) && b == ok, "a boolean is taken as one, and nothing else is")
	ok, u := data.ToUint32(out)
	Assert(ok == (kind == 0) && (!ok && u == 0 || ok && u == v), "a number is taken as one, and nothing else is")
	ok, t := data.ToStr(out)
	Assert(ok == (kind == 2), "a text is taken as one, and nothing else is")
	if ok {
		Assert(t == s, "the text is that of the answer")
	}
	ok, x := data.ToFloat32(out)
	Assert(ok == (kind == 1), "a real is taken as one, and nothing else is")
	if ok {
		Same(x, f, "the value is that of the answer")
	}
	ok, y := data.ToFloat64(out)
	Assert(ok == (kind == 7), "a double is taken as one, and nothing else is")
	if ok {
		Same(y, float64(f), "the value is that of the answer")
	}
	ok, l := data.ToArr(out)
	Assert(ok == (kind == 9) && len(l) <= 1, "a list is taken as one, and nothing else is")
	ok, _ = data.ToInt(out)
	Assert(!ok, "nothing is taken for an integer")
	ok, bs := data.ToBitString(out)
	Assert(!ok && bs == nil, "nothing is taken for a bit string")
	Assert(d.ToBitString(out) == nil, "nothing is taken for a bit string")
	bits := btypes.NewBitString(2)
	out.Object.Properties = []btypes.Property{{Data: bits}}
	ok, bs = data.ToBitString(out)
	Assert(ok && bs == bits && d.ToBitString(out) == bits, "a bit string is taken as one")
	out.Object.Properties = []btypes.Property{{Data: int(v)}}
	ok, n := data.ToInt(out)
	Assert(ok && n == int(v), "an integer is taken as one")
}

// N02: writes.

func isWritten(a asked, typ, instance, prop uint32, priority byte) {
	isAsked(a, 1, 2, 3, typ, instance, prop, 0xffffffff)
	Assert(a.priority == uint32(priority), "the request has the priority")
}

func reported(err error) {
	Assert(len(other.writes) == 1 && len(other.reads) == 0, "one request is sent")
	Assert((err != nil) == (other.wrong != nil), "what the device answers is reported")
}

func N02_Write(kind, priority byte, none, refused bool, typ, instance, prop, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if refused {
		other.wrong = errors.New("refused")
	}
	x := value(kind, v, f, s)
	err := d.Write(&network.Write{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), Prop: btypes.PropertyType(prop), WriteValue: x, WriteNull: none, WritePriority: priority})
	if none {
		x = null.Null{}
	} else if kind != 0 && kind != 1 && kind != 2 && kind != 7 {
		Assert(err != nil && len(other.writes) == 0, "a value of another type is rejected")
		return
	}
	reported(err)
	isWritten(other.writes[0], typ, instance, prop, priority)
	Same(other.writes[0].data, x, "the value is written")
}

func N02_Analogue(priority byte, refused bool, typ, instance uint32, f float32) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if refused {
		other.wrong = errors.New("refused")
	}
	err := d.PointWriteAnalogue(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), WritePriority: priority}, f)
	reported(err)
	isWritten(other.writes[0], typ, instance, 85, priority)
	Same(other.writes[0].data, f, "the value is written")
}

func N02_Number(priority byte, refused, multi bool, typ, instance, v uint32) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if refused {
		other.wrong = errors.New("refused")
	}
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), WritePriority: priority}
	var err error
	if multi {
		err = d.PointWriteMultiState(pnt, v)
	} else {
		err = d.PointWriteBool(pnt, v)
	}
	reported(err)
	isWritten(other.writes[0], typ, instance, 85, priority)
	Same(other.writes[0].data, v, "the value is written")
}

func N02_Release(priority, old byte, refused, none bool, typ, instance, v uint32) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if refused {
		other.wrong = errors.New("refused")
	}
	var pnt *network.Point
	if !none {
		pnt = &network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), WritePriority: old, WriteValue: v}
	}
	err := d.PointReleasePriority(pnt, priority)
	if none || priority < 1 || priority > 16 {
		Assert(err != nil && len(other.writes) == 0, "there is no such priority")
		return
	}
	reported(err)
	isWritten(other.writes[0], typ, instance, 85, priority)
	Same(other.writes[0].data, null.Null{}, "Null is written")
}

func N02_Names(refused, dev bool, typ, instance uint32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if refused {
		other.wrong = errors.New("refused")
	}
	var err error
	if dev {
		err = d.WriteDeviceName(btypes.ObjectInstance(instance), s)
		typ = 8
	} else {
		err = d.WritePointName(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ), WritePriority: 5}, s)
	}
	reported(err)
	isAsked(other.writes[0], 1, 2, 3, typ, instance, 77, 0xffffffff)
	Same(other.writes[0].data, s, "the name is written")
}

// N03: the priority array.

func slot(p *priority.Float32, i int) *float32 {
	return [16]*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16}[i]
}

func priorityOf(d *network.Device, list []interface{}, typ, instance uint32) *priority.Float32 {
	other.answers = []interface{}{list}
	p, err := d.PointReadPriority(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)})
	Assert(len(other.reads) == 1 && len(other.writes) == 0, "one request is sent")
	isAsked(other.reads[0], 1, 2, 3, typ, instance, 87, 0xffffffff)
	Assert(err == nil && p != nil, "the array is returned")
	return p
}

// One value in each place: the others are released.
func N03_One(at byte, number bool, typ, instance, v uint32, f float32) {
	typ, at = typ&0xffff, at&15
	if number {
		v = v & 0xff
	}
	d := anyDevice(1, 2, 3)
	list := make([]interface{}, 16)
	for i := range list {
		list[i] = null.Null{}
	}
	for i := range list {
		if i == int(at) {
			if number {
				list[i] = v
			} else {
				list[i] = f
			}
		}
	}
	p := priorityOf(d, list, typ, instance)
	for i := 0; i < 16; i++ {
		x := slot(p, i)
		if i != int(at) {
			Assert(x == nil, "the slot is free")
			continue
		}
		Assert(x != nil, "the slot is taken")
		if number {
			Same(*x, float32(v), "the slot has the value")
		} else {
			Same(*x, f, "the slot has the value")
		}
	}
	h := p.HighestFloat32()
	Assert(h != nil && h == slot(p, int(at)), "the value in force is the only one")
}

// All places taken, from one on: the first of them is in force.
func N03_Order(from byte, f float32, g [16]float32) {
	d := anyDevice(1, 2, 3)
	n := int(from & 31)
	if n > 16 {
		return
	}
	list := make([]interface{}, 16)
	for i := range list {
		if i < n {
			list[i] = null.Null{}
		} else {
			list[i] = g[i]
		}
	}
	p := priorityOf(d, list, 2, 1)
	for i := 0; i < 16; i++ {
		if i < n {
			Assert(slot(p, i) == nil, "the slot is free")
		} else {
			Assert(slot(p, i) != nil, "the slot is taken")
			Same(*slot(p, i), g[i], "the slot has the value")
		}
	}
	h := p.HighestFloat32()
	if n == 16 {
		Assert(h == nil, "no value is in force")
	} else {
		Assert(h == slot(p, n), "the value in force is that of the highest priority")
	}
}

// What is not an array is not taken for an empty one.
func N03_Not(kind byte, typ, instance, v uint32, f float32, s string) {
	typ = typ & 0xffff
	d := anyDevice(1, 2, 3)
	if kind == 9 {
		return
	}
	other.answers = []interface{}{value(kind, v, f, s)}
	_, err := d.PointReadPriority(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)})
	Assert(err != nil, "what is not an array is reported")
}

// N04: object lists.

func anObject(v uint32) btypes.ObjectID {
	return btypes.ObjectID{Type: btypes.ObjectType(v >> 22), Instance: btypes.ObjectInstance(v & 0x3fffff)}
}

func upTo3(n byte) int {
	switch n & 3 {
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	}
	return 0
}

func isList(got []btypes.ObjectID, a, b, c uint32, n int) {
	Assert(len(got) == n, "all objects are listed")
	want := []uint32{a, b, c}
	for i := 0; i < n; i++ {
		Assert(got[i] == anObject(want[i]), "the objects are listed in order")
	}
}

func N04_Whole(n byte, instance, a, b, c uint32) {
	d := anyDevice(1, 2, 3)
	all := []interface{}{anObject(a), anObject(b), anObject(c)}
	k := upTo3(n)
	if k == 1 {
		other.answers = []interface{}{all[0]}
	} else {
		other.answers = []interface{}{all[:k]}
	}
	got, err := d.DeviceObjects(btypes.ObjectInstance(instance), false)
	Assert(len(other.reads) == 1 && len(other.writes) == 0 && len(other.ranges) == 0, "one request is sent")
	isAsked(other.reads[0], 1, 2, 3, 8, instance, 76, 0xffffffff)
	Assert(err == nil, "the list is returned")
	isList(got, a, b, c, k)
}

func N04_Steps(n byte, instance, a, b, c uint32) {
	d := anyDevice(1, 2, 3)
	k := upTo3(n)
	other.answers = []interface{}{errors.New("too long"), uint32(k), anObject(a), anObject(b), anObject(c)}
	got, err := d.DeviceObjects(btypes.ObjectInstance(instance), false)
	Assert(len(other.reads) == 2+k && len(other.writes) == 0 && len(other.ranges) == 0, "the length and each object are read")
	isAsked(other.reads[0], 1, 2, 3, 8, instance, 76, 0xffffffff)
	for i := 1; i < 2+k; i++ {
		isAsked(other.reads[i], 1, 2, 3, 8, instance, 76, uint32(i-1))
	}
	Assert(err == nil, "the list is returned")
	isList(got, a, b, c, k)
}

// What goes wrong on the way is reported.
func N04_Fails(at, kind byte, instance, a, v uint32, f float32, s string) {
	d := anyDevice(1, 2, 3)
	bad := value(kind, v, f, s)
	other.answers = []interface{}{errors.New("too long"), uint32(2), anObject(a), anObject(a)}
	switch at & 3 {
	case 0:
		if kind == 8 || kind > 9 {
			return
		}
		other.answers = []interface{}{bad}
	case 1:
		if kind == 0 {
			return
		}
		other.answers[1] = bad
	case 2:
		if kind == 8 {
			return
		}
		other.answers[2] = bad
	case 3:
		if kind == 8 {
			return
		}
		other.answers[3] = bad
	}
	got, err := d.DeviceObjects(btypes.ObjectInstance(instance), false)
	Assert(err != nil && len(got) == 0, "a list that is not complete is reported")
}

// With the limits of the device, as its answer to Who-Is states them.
func N04_Limits(silent bool, instance, a, maxApdu, seg uint32) {
	instance = instance & 0x3fffff
	d := anyDevice(1, 2, 3)
	d.MaxApdu, d.Segmentation = 50, 3
	other.answers = []interface{}{anObject(a)}
	other.found = []btypes.Device{{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg)}}
	if silent {
		other.silent = errors.New("not sent")
	}
	got, err := d.DeviceObjects(btypes.ObjectInstance(instance), true)
	Assert(len(other.ranges) == 1 && other.ranges[0].Low == int(instance) && other.ranges[0].High == int(instance), "the device is asked who it is")
	Assert(other.ranges[0].GlobalBroadcast || other.ranges[0].NetworkNumber == 0xffff, "the device is asked on whatever network it is")
	if silent {
		Assert(err != nil, "an error is reported")
		return
	}
	Assert(err == nil && d.MaxApdu == maxApdu && d.Segmentation == seg, "the limits are those of the answer")
	isList(got, a, 0, 0, 1)
}

// Long lists: as many objects as a controller has.
func N04_Many(byParts bool) {
	const many = 300
	d := anyDevice(1, 2, 3)
	var all []interface{}
	for i := 1; i <= many; i++ {
		all = append(all, btypes.ObjectID{Type: btypes.ObjectType(i & 7), Instance: btypes.ObjectInstance(i)})
	}
	if !byParts {
		other.answers = []interface{}{all}
	} else {
		other.answers = append([]interface{}{errors.New("too long"), uint32(many)}, all...)
	}
	got, err := d.DeviceObjects(1234, false)
	Assert(err == nil && len(got) == many, "all objects are listed")
	for i := 1; i <= many; i++ {
		Assert(got[i-1] == btypes.ObjectID{Type: btypes.ObjectType(i & 7), Instance: btypes.ObjectInstance(i)}, "the objects are listed in order")
		if byParts {
			Assert(other.reads[i+1].index == uint32(i), "each object is read once")
		}
	}
}
