package thm

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
)

// W08: what ReadProperty takes from an answer (clause 15.5).

func answer(typ, instance, prop, index uint32, values ...byte) []byte {
	w := reference(nil, typ, instance, prop, index)
	w = append(open(w, 3), values...)
	return closeT(w, 3)
}

func readAnswer(typ, instance, prop, index uint32, values ...byte) interface{} {
	typ, instance = typ&0x3ff, instance&0x3fffff
	d := encoding.NewDecoder(answer(typ, instance, prop, index, values...))
	var out btypes.PropertyData
	err := d.ReadProperty(&out)
	Assert(err == nil && d.Error() == nil, "the answer is decoded")
	Assert(uint32(out.Object.ID.Type) == typ && uint32(out.Object.ID.Instance) == instance, "the object is decoded")
	Assert(len(out.Object.Properties) == 1, "there is one property")
	p := out.Object.Properties[0]
	Assert(uint32(p.Type) == prop && p.ArrayIndex == index, "the property is decoded")
	return p.Data
}

func W08_Real(typ, instance, prop, index uint32, v float32) {
	x, ok := readAnswer(typ, instance, prop, index, put([]byte{0x44}, math.Float32bits(v), 4)...).(float32)
	Assert(ok, "the value is a real")
	Same(x, v, "the value is decoded")
}

func W08_Number(typ, instance, prop, index, v uint32) {
	x, ok := readAnswer(typ, instance, prop, index, app(nil, 2, v)...).(uint32)
	Assert(ok && x == v, "the unsigned value is decoded")
	x, ok = readAnswer(typ, instance, prop, index, app(nil, 9, v)...).(uint32)
	Assert(ok && x == v, "the enumerated value is decoded")
}

func W08_Small(typ, instance, prop, index uint32, v bool) {
	b := byte(0x10)
	if v {
		b = 0x11
	}
	x, ok := readAnswer(typ, instance, prop, index, b).(bool)
	Assert(ok && x == v, "the boolean value is decoded")
	_, ok = readAnswer(typ, instance, prop, index, 0).(null.Null)
	Assert(ok, "Null is decoded")
}

func W08_Text(typ, instance, index uint32, s string) {
	Assume(len(s) < 1<<31)
	x, ok := readAnswer(typ, instance, 77, index, encoded(s, false)...).(string)
	Assert(ok, "the value is a text")
	Equal([]byte(x), []byte(s), "the text is decoded")
}

// A list of values, as read from a whole array, keeps its order.
func W08_List(typ, instance, prop, a, b, t, i uint32) {
	prop, a, t, i = prop&0xff, a&0xff, t&0x3ff, i&0x3fffff
	x, ok := readAnswer(typ, instance, prop, noIndex, app(app(nil, 2, a), 9, b)...).([]interface{})
	Assert(ok && len(x) == 2, "two values are decoded")
	number(x[0], a)
	number(x[1], b)
	object := put([]byte{0xc4}, t<<22|i, 4)
	x, ok = readAnswer(typ, instance, prop, noIndex, append(append(app(nil, 2, a), object...), 0x11)...).([]interface{})
	Assert(ok && len(x) == 3, "three values are decoded")
	number(x[0], a)
	id, ok := x[1].(btypes.ObjectID)
	Assert(ok && uint32(id.Type) == t && uint32(id.Instance) == i, "the second of three values is decoded")
	z, ok := x[2].(bool)
	Assert(ok && z, "the last of three values is decoded")
}

func W08_Nothing(typ, instance, prop uint32) {
	x, ok := readAnswer(typ, instance, prop, noIndex).([]interface{})
	Assert(ok && len(x) == 0, "an empty list is decoded")
}

func W08_Wrong(tag byte, typ, instance, prop uint32, v float32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	tag &= 7
	w := answer(typ, instance, prop, noIndex, put([]byte{0x44}, math.Float32bits(v), 4)...)
	var out btypes.PropertyData
	if tag != 0 {
		w[0] = tag<<4 | 12
		Assert(encoding.NewDecoder(w).ReadProperty(&out) != nil, "an answer that does not start with an object is reported")
		w[0] = 12
	}
	if tag != 1 {
		w[5] = tag<<4 | 9
		Assert(encoding.NewDecoder(w).ReadProperty(&out) != nil, "an answer without a property is reported")
		w[5] = 0x19
	}
	if tag != 3 {
		w[len(w)-1] = tag<<4 | 15
		Assert(encoding.NewDecoder(w).ReadProperty(&out) != nil, "a value that does not end is reported")
		w[len(w)-1] = 0x3f
	}
	w[0] = 4
	Assert(encoding.NewDecoder(w).ReadProperty(&out) != nil, "an answer that does not start with a context tag is reported")
}

// The answers that the module itself encodes are decoded by it.
func W08_Ack(id byte, typ, instance, prop, index uint32, v float32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	Assume(prop <= 4194303)
	e := encoding.NewEncoder()
	err := e.ReadPropertyAck(id, propertyData(typ, instance, prop, index, v, 0))
	Assert(err == nil && e.Error() == nil, "an answer is encoded")
	Equal(e.Bytes(), append([]byte{0x30, id, 12}, answer(typ, instance, prop, index, encoded(v, false)...)...), "the octets of an answer")
}
