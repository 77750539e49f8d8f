package thm

import (
	"math"

	"github.com/NubeDev/bacnet/encoding"

	"github.com/NubeDev/bacnet/btypes"
)

// W16: members of constructed values that have a context tag are decoded as
// the types that clause 21 gives them.

const (
	action              = 2
	exceptionSchedule   = 38
	listOfGroupMembers  = 53
	recipientList       = 102
	logDeviceObject     = 132
	activeSubscriptions = 152
	subordinateList     = 211
	actualShedLevel     = 212
	expectedShedLevel   = 214
	requestedShedLevel  = 218
)

// member decodes one member of a property and gives its value.
func member(prop, typ, instance, index uint32, w ...byte) interface{} {
	l := readMulti(results(nil, typ, instance, result(nil, prop, index, w...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 1)
	p := l[0].Properties[0]
	Assert(uint32(p.Type) == prop && p.ArrayIndex == index, "the property is decoded")
	return p.Data
}

func unsignedAt(prop uint32, tag byte, typ, instance, index, v uint32) {
	number(member(prop, typ&0x3ff, instance&0x3fffff, index&0xff, ctx(nil, tag, v)...), v)
}

func realAt(prop uint32, tag byte, typ, instance, index uint32, v float32) {
	x, ok := member(prop, typ&0x3ff, instance&0x3fffff, index&0xff, put([]byte{tag<<4 | 0xc}, math.Float32bits(v), 4)...).(float32)
	Assert(ok, "the member is a real")
	Same(x, v, "the member is decoded")
}

func objectAt(prop uint32, tag byte, typ, instance, index, t, i uint32) {
	t, i = t&0x3ff, i&0x3fffff
	x, ok := member(prop, typ&0x3ff, instance&0x3fffff, index&0xff, ctxObject(nil, tag, t, i)...).(btypes.ObjectID)
	Assert(ok && uint32(x.Type) == t && uint32(x.Instance) == i, "the member is an object identifier")
}

func booleanAt(prop uint32, tag byte, typ, instance, index uint32, v bool) {
	b := byte(0)
	if v {
		b = 1
	}
	x, ok := member(prop, typ&0x3ff, instance&0x3fffff, index&0xff, tag<<4|9, b).(bool)
	Assert(ok && x == v, "the member is a boolean")
}

func W16_ShedLevels(typ, instance, index, v uint32, r float32) {
	unsignedAt(actualShedLevel, 0, typ, instance, index, v)
	unsignedAt(actualShedLevel, 1, typ, instance, index, v)
	realAt(actualShedLevel, 2, typ, instance, index, r)
	unsignedAt(expectedShedLevel, 0, typ, instance, index, v)
	unsignedAt(expectedShedLevel, 1, typ, instance, index, v)
	realAt(expectedShedLevel, 2, typ, instance, index, r)
	unsignedAt(requestedShedLevel, 0, typ, instance, index, v)
	unsignedAt(requestedShedLevel, 1, typ, instance, index, v)
	realAt(requestedShedLevel, 2, typ, instance, index, r)
}

func W16_Action(typ, instance, index, t, i, v uint32, b bool) {
	objectAt(action, 0, typ, instance, index, t, i)
	objectAt(action, 1, typ, instance, index, t, i)
	unsignedAt(action, 2, typ, instance, index, v)
	unsignedAt(action, 3, typ, instance, index, v)
	unsignedAt(action, 5, typ, instance, index, v)
	unsignedAt(action, 6, typ, instance, index, v)
	booleanAt(action, 7, typ, instance, index, b)
	booleanAt(action, 8, typ, instance, index, b)
}

func W16_References(typ, instance, index, t, i, v uint32) {
	objectAt(logDeviceObject, 0, typ, instance, index, t, i)
	unsignedAt(logDeviceObject, 1, typ, instance, index, v)
	unsignedAt(logDeviceObject, 2, typ, instance, index, v)
	objectAt(logDeviceObject, 3, typ, instance, index, t, i)
	objectAt(subordinateList, 0, typ, instance, index, t, i)
	objectAt(subordinateList, 1, typ, instance, index, t, i)
	objectAt(listOfGroupMembers, 0, typ, instance, index, t, i)
	objectAt(recipientList, 0, typ, instance, index, t, i)
}

func W16_Schedules(typ, instance, index, t, i, v uint32, b bool, r float32) {
	objectAt(exceptionSchedule, 1, typ, instance, index, t, i)
	unsignedAt(exceptionSchedule, 3, typ, instance, index, v)
	booleanAt(activeSubscriptions, 2, typ, instance, index, b)
	unsignedAt(activeSubscriptions, 3, typ, instance, index, v)
	realAt(activeSubscriptions, 4, typ, instance, index, r)
}

// A command of an action, whole: its members come one after the other, and
// what follows is not shifted.
func W16_Command(typ, instance, t, i, prop, idx, pri, delay uint32, quit, success bool, v float32) {
	typ, instance, t, i = typ&0x3ff, instance&0x3fffff, t&0x3ff, i&0x3fffff
	prop, idx, pri, delay = prop&0xff, idx&0xff, pri&0xf, delay&0xff
	q, s := byte(0), byte(0)
	if quit {
		q = 1
	}
	if success {
		s = 1
	}
	w := open(nil, 0)
	w = ctxObject(w, 0, 8, i)
	w = ctxObject(w, 1, t, i)
	w = ctx(w, 2, prop)
	w = ctx(w, 3, idx)
	w = closeT(append(open(w, 4), real(v)...), 4)
	w = ctx(w, 5, pri)
	w = ctx(w, 6, delay)
	w = append(w, 0x79, q, 0x89, s)
	w = closeT(w, 0)
	l := readMulti(results(nil, typ, instance, result(result(nil, action, noIndex, w...), 28, noIndex, real(v)...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 2)
	isReal(l[0].Properties[1], 28, noIndex, v)
	m, ok := l[0].Properties[0].Data.([]interface{})
	Assert(ok && len(m) == 9, "every member is decoded")
	dev, ok := m[0].(btypes.ObjectID)
	Assert(ok && dev.Type == 8 && uint32(dev.Instance) == i, "the device is decoded")
	obj, ok := m[1].(btypes.ObjectID)
	Assert(ok && uint32(obj.Type) == t && uint32(obj.Instance) == i, "the object is decoded")
	number(m[2], prop)
	number(m[3], idx)
	val, ok := m[4].(float32)
	Assert(ok, "the value is a real")
	Same(val, v, "the value is decoded")
	number(m[5], pri)
	number(m[6], delay)
	x, ok := m[7].(bool)
	Assert(ok && x == quit, "the boolean is decoded")
	x, ok = m[8].(bool)
	Assert(ok && x == success, "the boolean is decoded")
}

// A member whose type is not known never shifts what follows it: the property
// after it is decoded right, or an error is reported.
func W16_Unknown(tag, n, a, b, c, e byte, instance uint32, v float32) {
	instance = instance & 0x3fffff
	k := byte(nibble(n))
	if k > 4 {
		return
	}
	w := append([]byte{nibble(tag)<<4 | 8 | k}, []byte{a, b, c, e}[:k]...)
	if nibble(tag) == 15 {
		w = append([]byte{0xf8 | k, a}, []byte{a, b, c, e}[:k]...)
	}
	d := encoding.NewDecoder(results(nil, 0, instance, result(result(nil, 999, noIndex, w...), 28, noIndex, real(v)...)...))
	var out btypes.MultiplePropertyData
	err := d.ReadMultiplePropertyAck(&out)
	if err != nil || d.Error() != nil {
		return
	}
	Assert(len(out.Objects) == 1, "one object is decoded")
	isObject(out.Objects[0], 0, instance, 2)
	isReal(out.Objects[0].Properties[1], 28, noIndex, v)
}

// Time stamps are a time, a number, or a date with a time.
func W16_TimeStamps(which, h, m, s, hs byte, typ, instance, index, v uint32) {
	var prop uint32
	switch which {
	case 0:
		prop = 130 // event time stamps
	case 1:
		prop = 430 // command time array
	case 2:
		prop = 432 // last command time
	case 3:
		prop = 157 // last restore time
	case 4:
		prop = 189 // update time
	default:
		prop = 203 // time of device restart
	}
	unsignedAt(prop, 1, typ, instance, index, v)
	t, ok := member(prop, typ&0x3ff, instance&0x3fffff, index&0xff, 0x0c, h, m, s, hs).(btypes.Time)
	Assert(ok && t.Hour == int(h) && t.Minute == int(m) && t.Second == int(s) && t.Millisecond == 10*int(hs), "the time is decoded")
}
