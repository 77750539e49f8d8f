package thm

import (
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
)

func encoded(v interface{}, flag bool) []byte {
	e := encoding.NewEncoder()
	err := e.AppData(v, flag)
	Assert(err == nil && e.Error() == nil, "the value is encoded")
	return e.Bytes()
}

func put64(b []byte, v uint64) []byte {
	return append(b, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func signedBytes(v int32) []byte {
	switch {
	case v >= -0x80 && v < 0x80:
		return []byte{0x31, byte(v)}
	case v >= -0x8000 && v < 0x8000:
		return []byte{0x32, byte(v >> 8), byte(v)}
	case v >= -0x800000 && v < 0x800000:
		return []byte{0x33, byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{0x34, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// textHeader is the tag of a character string of n octets (clause 20.2.1.3.1, 20.2.9).
func textHeader(n int) []byte {
	n++
	switch {
	case n <= 4:
		return []byte{byte(0x70 | n), 0}
	case n <= 253:
		return []byte{0x75, byte(n), 0}
	case n <= 65535:
		return []byte{0x75, 254, byte(n >> 8), byte(n), 0}
	}
	return []byte{0x75, 255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0}
}

func W01_Null(flag bool) { Equal(encoded(null.Null{}, flag), []byte{0}, "the octet of Null") }

func W01_Bool(v bool) {
	w := []byte{0x10}
	if v {
		w = []byte{0x11}
	}
	Equal(encoded(v, false), w, "the octet of a boolean")
}

func W01_Unsigned(v uint32) { Equal(encoded(v, false), app(nil, 2, v), "the octets of an unsigned") }
func W01_Signed(v int32)    { Equal(encoded(v, false), signedBytes(v), "the octets of a signed") }
func W01_Enumerated(v uint32) {
	Equal(encoded(btypes.Enumerated(v), false), app(nil, 9, v), "the octets of an enumerated")
}
func W01_Real(v float32) {
	Equal(encoded(v, false), put([]byte{0x44}, math.Float32bits(v), 4), "the octets of a real")
}
func W01_Double(v float64) {
	Equal(encoded(v, false), put64([]byte{0x55, 8}, math.Float64bits(v)), "the octets of a double")
}
func W01_Object(typ, instance uint32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	v := btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(instance)}
	Equal(encoded(v, false), put([]byte{0xc4}, typ<<22|instance, 4), "the octets of an object identifier")
}
func W01_Text(s string) {
	Assume(len(s) < 1<<31)
	Equal(encoded(s, false), append(textHeader(len(s)), s...), "the octets of a character string")
}

// The values of binary outputs and values are enumerated.
func W01_Binary(v uint32) { Equal(encoded(v, true), app(nil, 9, v), "the octets of a binary value") }

func W01_Rejected(v int, b uint8, s []byte, i64 int64, u64 uint64, p *uint32, flag bool) {
	for _, x := range []interface{}{v, b, s, i64, u64, p, nil, btypes.Time{}, btypes.Date{}} {
		e := encoding.NewEncoder()
		err := e.AppData(x, flag)
		Assert(err != nil, "a value of another type is rejected")
		Assert(e.Error() != nil, "the encoder keeps the error")
	}
}

func W01_BinaryRejected(i int32, f float32, s string, b bool) {
	for _, x := range []interface{}{i, f, s, b} {
		e := encoding.NewEncoder()
		err := e.AppData(x, true)
		Assert(err != nil && e.Error() != nil, "a binary value of another type is rejected")
	}
}

func decoded(b []byte) (interface{}, *encoding.Decoder) {
	d := encoding.NewDecoder(b)
	v, err := d.AppData()
	Assert(err == nil && d.Error() == nil, "the value is decoded")
	return v, d
}

func W01_NullBack(rest []byte) {
	v, d := decoded(append(encoded(null.Null{}, false), rest...))
	_, ok := v.(null.Null)
	Assert(ok, "Null survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_BoolBack(in bool, rest []byte) {
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(bool)
	Assert(ok && x == in, "the boolean survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_UnsignedBack(in uint32, rest []byte) {
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(uint32)
	Assert(ok && x == in, "the unsigned survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_SignedBack(in int32, rest []byte) {
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(int32)
	if in < 0 {
		Assert(ok && x == in, "a negative number survives")
	} else {
		Assert(ok && x == in, "a positive number survives")
	}
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_EnumeratedBack(in uint32, rest []byte) {
	v, d := decoded(append(encoded(btypes.Enumerated(in), false), rest...))
	x, ok := v.(uint32)
	Assert(ok && x == in, "the enumerated survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_RealBack(in float32, rest []byte) {
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(float32)
	Assert(ok, "the real survives")
	Same(x, in, "the real survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_DoubleBack(in float64, rest []byte) {
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(float64)
	Assert(ok, "the double survives")
	Same(x, in, "the double survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_ObjectBack(typ, instance uint32, rest []byte) {
	in := btypes.ObjectID{Type: btypes.ObjectType(typ & 0x3ff), Instance: btypes.ObjectInstance(instance & 0x3fffff)}
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(btypes.ObjectID)
	Assert(ok, "the object identifier survives")
	Same(x, in, "the object identifier survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
func W01_TextBack(in string, rest []byte) {
	Assume(len(in) < 1<<31)
	v, d := decoded(append(encoded(in, false), rest...))
	x, ok := v.(string)
	Assert(ok, "the text survives")
	Equal([]byte(x), []byte(in), "the text survives")
	Equal(d.Bytes(), rest, "no more than the value is consumed")
}
