package thm

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

// W09: what ReadPropertyMultiple takes from an answer (clause 15.7).

func result(w []byte, prop, index uint32, values ...byte) []byte {
	w = ctx(w, 2, prop)
	if index != noIndex {
		w = ctx(w, 3, index)
	}
	return closeT(append(open(w, 4), values...), 4)
}

func results(w []byte, typ, instance uint32, results ...byte) []byte {
	w = open(ctxObject(w, 0, typ, instance), 1)
	return closeT(append(w, results...), 1)
}

func readMulti(w []byte) []btypes.Object {
	d := encoding.NewDecoder(w)
	var out btypes.MultiplePropertyData
	err := d.ReadMultiplePropertyAck(&out)
	Assert(err == nil && d.Error() == nil, "the answer is decoded")
	return out.Objects
}

func isObject(o btypes.Object, typ, instance uint32, n int) {
	Assert(uint32(o.ID.Type) == typ && uint32(o.ID.Instance) == instance, "the object is decoded")
	Assert(len(o.Properties) == n, "the object has its properties")
}

func isReal(p btypes.Property, prop, index uint32, v float32) {
	Assert(uint32(p.Type) == prop && p.ArrayIndex == index, "the property is decoded")
	x, ok := p.Data.(float32)
	Assert(ok, "the value is a real")
	Same(x, v, "the value is decoded")
}

func isNumber(p btypes.Property, prop, index uint32, v uint32) {
	Assert(uint32(p.Type) == prop && p.ArrayIndex == index, "the property is decoded")
	number(p.Data, v)
}

func real(v float32) []byte { return put([]byte{0x44}, math.Float32bits(v), 4) }

func W09_One(typ, instance, prop, index uint32, v float32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	l := readMulti(results(nil, typ, instance, result(nil, prop, index, real(v)...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 1)
	isReal(l[0].Properties[0], prop, index, v)
}

func W09_TwoProperties(typ, instance, prop, prop2, index uint32, v float32, n uint32) {
	typ, instance, prop, prop2, index = typ&0x3ff, instance&0x3fffff, prop&0xff, prop2&0xff, index&0xff
	w := result(nil, prop, noIndex, app(nil, 9, n)...)
	w = result(w, prop2, index, real(v)...)
	l := readMulti(results(nil, typ, instance, w...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 2)
	isNumber(l[0].Properties[0], prop, noIndex, n)
	isReal(l[0].Properties[1], prop2, index, v)
	l = readMulti(results(nil, typ, instance, result(result(nil, prop, index, real(v)...), prop2, noIndex, app(nil, 2, n)...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 2)
	isReal(l[0].Properties[0], prop, index, v)
	isNumber(l[0].Properties[1], prop2, noIndex, n)
}

func W09_TwoObjects(typ, instance, typ2, instance2, prop, index uint32, v, v2 float32) {
	typ, instance, typ2, instance2, prop, index = typ&0x3ff, instance&0x3fffff, typ2&0x3ff, instance2&0x3fffff, prop&0xff, index&0xff
	w := results(nil, typ, instance, result(nil, prop, noIndex, real(v)...)...)
	w = results(w, typ2, instance2, result(nil, prop, index, real(v2)...)...)
	l := readMulti(w)
	Assert(len(l) == 2, "two objects are decoded")
	isObject(l[0], typ, instance, 1)
	isReal(l[0].Properties[0], prop, noIndex, v)
	isObject(l[1], typ2, instance2, 1)
	isReal(l[1].Properties[0], prop, index, v2)
}

func W09_List(typ, instance, prop, a, b, t, i uint32) {
	typ, instance, prop, a, t, i = typ&0x3ff, instance&0x3fffff, prop&0xff, a&0xff, t&0x3ff, i&0x3fffff
	l := readMulti(results(nil, typ, instance, result(nil, prop, noIndex, append(app(app(nil, 2, a), 9, b), put([]byte{0xc4}, t<<22|i, 4)...)...)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 1)
	x, ok := l[0].Properties[0].Data.([]interface{})
	Assert(ok && len(x) == 3, "three values are decoded")
	number(x[0], a)
	number(x[1], b)
	id, ok := x[2].(btypes.ObjectID)
	Assert(ok && uint32(id.Type) == t && uint32(id.Instance) == i, "the last value is decoded")
	l = readMulti(results(nil, typ, instance, result(nil, prop, noIndex)...))
	Assert(len(l) == 1, "one object is decoded")
	isObject(l[0], typ, instance, 1)
	x, ok = l[0].Properties[0].Data.([]interface{})
	Assert(ok && len(x) == 0, "an empty list is decoded")
}

// An error of a property is not silently dropped.
func W09_Error(typ, instance, prop, class, code uint32, v float32) {
	typ, instance, prop, class, code = typ&0x3ff, instance&0x3fffff, prop&0xff, class&0xff, code&0xffff
	w := ctx(nil, 2, prop)
	w = closeT(app(app(open(w, 5), 9, class), 9, code), 5)
	var out btypes.MultiplePropertyData
	err := encoding.NewDecoder(results(nil, typ, instance, w...)).ReadMultiplePropertyAck(&out)
	Assert(err != nil, "the error of the only property is reported")
	Assert(Mentions(err, class) && Mentions(err, code), "the error of the only property tells its class and code")
	w = append(result(nil, prop, noIndex, real(v)...), w...)
	err = encoding.NewDecoder(results(nil, typ, instance, w...)).ReadMultiplePropertyAck(&out)
	Assert(err != nil, "the error of the second property is reported")
	Assert(Mentions(err, class) && Mentions(err, code), "the error of the second property tells its class and code")
}

func W09_Wrong(tag byte, typ, instance, prop uint32, v float32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	tag &= 7
	w := results(nil, typ, instance, result(nil, prop, noIndex, real(v)...)...)
	var out btypes.MultiplePropertyData
	if tag != 0 {
		w[0] = tag<<4 | 12
		Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "an answer that does not start with an object is reported")
		w[0] = 12
	}
	if tag != 1 {
		w[5] = tag<<4 | 14
		Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "an answer without results is reported")
		w[5] = 0x1e
		w[len(w)-1] = tag<<4 | 15
		Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "results that do not end are reported")
		w[len(w)-1] = 0x1f
	}
	if tag != 2 {
		w[6] = tag<<4 | 9
		Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "an answer without a property is reported")
		w[6] = 0x29
	}
	if tag < 2 || tag > 5 {
		w[8] = tag<<4 | 14
		Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "a property without a value is reported")
		w[8] = 0x4e
	}
	w[0] = 4
	Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "an answer that does not start with a context tag is reported")
}

// Values that can not be decoded are reported, wherever they are.
func W09_Undecodable(typ, instance, prop uint32, v float32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	for _, bad := range [][]byte{
		{0x45, 0, 0, 0, 0, 0},    // a real of five octets
		{0xc3, 2, 0, 0},          // an object identifier of three octets
		{0xd1, 0},                // a reserved type
		{0xe2, 0, 0},             // a reserved type
		{0xd9, 0},                // a member that nothing has
		{0xe9, 0},                // a member that nothing has
		{0x25, 5, 0, 0, 0, 0, 0}, // a number of five octets
		{0x53, 0, 0, 0},          // a double of three octets
		{0xa3, 118, 1, 1},        // a date of three octets
	} {
		notDecoded(results(nil, typ, instance, result(nil, prop, noIndex, bad...)...))
		notDecoded(results(nil, typ, instance, result(nil, prop, noIndex, append(bad, real(v)...)...)...))
		notDecoded(results(nil, typ, instance, result(result(nil, prop, noIndex, real(v)...), 28, noIndex, bad...)...))
	}
}

func notDecoded(w []byte) {
	var out btypes.MultiplePropertyData
	Assert(encoding.NewDecoder(w).ReadMultiplePropertyAck(&out) != nil, "what can not be decoded is reported")
}

func W09_NoProperty(typ, instance, prop uint32, v float32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	w := results(nil, typ, instance, result(nil, prop, noIndex, real(v)...)...)
	for _, tag := range []byte{0x21, 0x2e, 0x2f, 0x19, 0x39, 0x49} {
		w[6] = tag
		notDecoded(w)
	}
}

// The answers that the module itself encodes.
func W09_Ack(id byte, typ, instance, prop, index, prop2 uint32, v float32, b bool) {
	typ, instance, prop2 = typ&0x3ff, instance&0x3fffff, prop2&0xff
	ack := func(l ...btypes.Object) []byte {
		e := encoding.NewEncoder()
		err := e.ReadMultiplePropertyAck(id, btypes.MultiplePropertyData{Objects: l})
		Assert(err == nil && e.Error() == nil, "an answer is encoded")
		return e.Bytes()
	}
	one := result(nil, prop, index, real(v)...)
	Equal(ack(object(typ, instance, property(prop, index, v, 0))), results([]byte{0x30, id, 14}, typ, instance, one...), "the octets of an answer")
	two := result(one, prop2, noIndex, encoded(b, false)...)
	Equal(ack(object(typ, instance, property(prop, index, v, 0), property(prop2, noIndex, b, 0))), results([]byte{0x30, id, 14}, typ, instance, two...), "the octets of an answer of two properties")
	other := results(results([]byte{0x30, id, 14}, typ, instance, one...), typ, 7, result(nil, prop2, noIndex, encoded(b, false)...)...)
	Equal(ack(object(typ, instance, property(prop, index, v, 0)), object(typ, 7, property(prop2, noIndex, b, 0))), other, "the octets of an answer of two objects")
}
