package thm

import (
	"fmt"

	"github.com/NubeDev/bacnet/btypes"
)

// W12: what a client makes of the answers to its requests.

func device() btypes.Device {
	return btypes.Device{Addr: address(10, 0, 0, 7, 47808), MaxApdu: 1476}
}

func over(err error, ok bool, msg string) {
	Assert((err == nil) == ok, msg)
	Assert(taken == 1 && released == 1, "the invoke id is taken and released once")
	Assert(len(line.sent) == received, "every request waits for its answer")
}

func W12_Read(id byte, typ, instance, prop, index uint32, v float32) {
	typ, instance, prop = typ&0x3ff, instance&0x3fffff, prop&0xff
	cl := newClient(id)
	replies = []interface{}{append([]byte{0x30, id, 12}, answer(typ, instance, prop, index, real(v)...)...)}
	out, err := cl.ReadProperty(device(), propertyData(typ, instance, prop, index, nil, 0))
	over(err, true, "the value is read")
	Assert(uint32(out.Object.ID.Type) == typ && uint32(out.Object.ID.Instance) == instance && len(out.Object.Properties) == 1, "the object is that of the answer")
	isReal(out.Object.Properties[0], prop, index, v)
	Assert(len(line.sent) == 1, "an answered request is not repeated")
}

func W12_ReadMulti(id byte, typ, instance, prop, prop2, index uint32, v float32, n uint32) {
	typ, instance, prop, prop2, index = typ&0x3ff, instance&0x3fffff, prop&0xff, prop2&0xff, index&0xff
	cl := newClient(id)
	w := results([]byte{0x30, id, 14}, typ, instance, result(result(nil, prop, noIndex, app(nil, 9, n)...), prop2, index, real(v)...)...)
	replies = []interface{}{w}
	out, err := cl.ReadMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{object(typ, instance, property(prop, noIndex, nil, 0), property(prop2, index, nil, 0))}})
	over(err, true, "the values are read")
	Assert(len(out.Objects) == 1, "there is one object")
	isObject(out.Objects[0], typ, instance, 2)
	isNumber(out.Objects[0].Properties[0], prop, noIndex, n)
	isReal(out.Objects[0].Properties[1], prop2, index, v)
	Assert(len(line.sent) == 1, "an answered request is not repeated")
}

func W12_Write(id byte, v float32) {
	cl := newClient(id)
	replies = []interface{}{[]byte{0x20, id, 15}}
	err := cl.WriteProperty(device(), propertyData(2, 1, 85, noIndex, v, 16))
	over(err, true, "the value is written")
	Assert(len(line.sent) == 1, "an acknowledged request is not repeated")
}

func W12_WriteMulti(id byte, v float32) {
	cl := newClient(id)
	replies = []interface{}{[]byte{0x20, id, 16}}
	err := cl.WriteMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{object(2, 1, property(85, noIndex, v, 16))}})
	over(err, true, "the value is written")
	Assert(len(line.sent) == 1, "an acknowledged request is not repeated")
}

// A device that refuses: an error, whatever the method is, that tells why.
func refuse(id byte, v float32, no interface{}, class, code uint32) {
	data := propertyData(2, 1, 85, noIndex, v, 16)
	multi := btypes.MultiplePropertyData{Objects: []btypes.Object{data.Object}}
	all := []interface{}{no, no, no}
	why := func(err error) bool { return Mentions(err, class) && Mentions(err, code) }
	cl := newClient(id)
	replies = all
	_, err := cl.ReadProperty(device(), data)
	over(err, false, "a refusal to read is reported")
	Assert(why(err), "a refusal to read tells why")
	cl = newClient(id)
	replies = all
	err = cl.WriteProperty(device(), data)
	over(err, false, "a refusal to write is reported")
	Assert(why(err), "a refusal to write tells why")
	cl = newClient(id)
	replies = all
	_, err = cl.ReadMultiProperty(device(), multi)
	over(err, false, "a refusal to read several properties is reported")
	Assert(why(err), "a refusal to read several properties tells why")
	cl = newClient(id)
	replies = all
	err = cl.WriteMultiProperty(device(), multi)
	over(err, false, "a refusal to write several properties is reported")
	Assert(why(err), "a refusal to write several properties tells why")
}

func W12_Refused(id byte, v float32, class, code uint32) {
	refuse(id, v, fmt.Errorf("refused: class %d code %d", class, code), class, code)
}

func W12_RefusedOctets(id byte, v float32, class, code uint32) {
	class, code = class&0xff, code&0xff
	if class != 0 {
		refuse(id, v, app(app([]byte{0x50, id, 15}, 9, class), 9, code), class, code)
	}
	refuse(id, v, []byte{0x50, id, 15, 0x91, 0, 0x91, 31}, 0, 31)
}

// A transaction that is given something else than octets or an error.
func W12_Unknown(id byte, v float32) {
	no := []interface{}{5, 5, 5}
	data := propertyData(2, 1, 85, noIndex, v, 16)
	multi := btypes.MultiplePropertyData{Objects: []btypes.Object{data.Object}}
	cl := newClient(id)
	replies = no
	_, err := cl.ReadProperty(device(), data)
	over(err, false, "an unknown answer to a read is reported")
	cl = newClient(id)
	replies = no
	over(cl.WriteProperty(device(), data), false, "an unknown answer to a write is reported")
	cl = newClient(id)
	replies = no
	_, err = cl.ReadMultiProperty(device(), multi)
	over(err, false, "an unknown answer to a read of several properties is reported")
	cl = newClient(id)
	replies = no
	over(cl.WriteMultiProperty(device(), multi), false, "an unknown answer to a write of several properties is reported")
}

// Answers that end too early.
func W12_Truncated(id byte, v float32) {
	w := append([]byte{0x30, id, 12}, answer(2, 1, 85, noIndex, real(v)...)...)
	for i := 0; i < len(w); i++ {
		// an answer may end before the value: then there is none
		if i == 10 {
			continue
		}
		cl := newClient(id)
		replies = []interface{}{w[:i], w[:i], w[:i]}
		_, err := cl.ReadProperty(device(), propertyData(2, 1, 85, noIndex, nil, 0))
		over(err, false, "a truncated answer to a read is reported")
	}
}

func W12_TruncatedMulti(id byte, v float32) {
	w := results([]byte{0x30, id, 14}, 2, 1, result(nil, 85, noIndex, real(v)...)...)
	for i := 0; i < len(w); i++ {
		if i == 3 {
			continue
		}
		cl := newClient(id)
		replies = []interface{}{w[:i], w[:i], w[:i]}
		_, err := cl.ReadMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{object(2, 1, property(85, noIndex, nil, 0))}})
		over(err, false, "a truncated answer to a read of several properties is reported")
	}
}

func several(id byte, u, v float32) (first, second []byte) {
	first = results(results([]byte{0x30, id, 14}, 2, 1, result(nil, 85, noIndex, real(u)...)...), 2, 2, result(nil, 85, noIndex, real(u)...)...)
	second = results([]byte{0x30, id, 14}, 2, 3, result(nil, 85, noIndex, real(v)...)...)
	return
}

func readSeveral(instance uint32) btypes.MultiplePropertyData {
	return btypes.MultiplePropertyData{Objects: []btypes.Object{object(2, instance, property(85, noIndex, nil, 0))}}
}

func isSecond(out btypes.MultiplePropertyData, v float32) {
	Assert(len(out.Objects) == 1, "there is one object")
	isObject(out.Objects[0], 2, 3, 1)
	isReal(out.Objects[0].Properties[0], 85, noIndex, v)
}

// Requests that are repeated: the answer to any of them is the result, and
// nothing of what came before it.
func W12_Repeated(id byte, v float32) {
	cl := newClient(id)
	replies = []interface{}{nil, []byte{0x20, id, 15}}
	over(cl.WriteProperty(device(), propertyData(2, 3, 85, noIndex, v, 16)), true, "a repeated write is acknowledged")
	cl = newClient(id)
	replies = []interface{}{[]byte{0x20, id}, []byte{0x20, id, 15}}
	over(cl.WriteProperty(device(), propertyData(2, 3, 85, noIndex, v, 16)), true, "a write is acknowledged after an answer that is cut off")
}

func W12_RepeatedMulti(id byte, u, v float32) {
	first, second := several(id, u, v)
	cl := newClient(id)
	replies = []interface{}{nil, second}
	out, err := cl.ReadMultiProperty(device(), readSeveral(3))
	over(err, true, "the answer to a repeated request is the result")
	isSecond(out, v)
	cl = newClient(id)
	replies = []interface{}{first[:len(first)-1], second}
	out, err = cl.ReadMultiProperty(device(), readSeveral(3))
	over(err, true, "the answer after one that is cut off is the result")
	isSecond(out, v)
	cl = newClient(id)
	replies = []interface{}{nil, []byte{0x20, id, 16}}
	over(cl.WriteMultiProperty(device(), btypes.MultiplePropertyData{Objects: []btypes.Object{object(2, 3, property(85, noIndex, v, 16))}}), true, "a repeated write is acknowledged")
}

// Requests one after the other.
func W12_OneAfterTheOther(id byte, u, v float32) {
	first, second := several(id, u, v)
	cl := newClient(id)
	replies = []interface{}{first}
	out, err := cl.ReadMultiProperty(device(), readSeveral(1))
	over(err, true, "the values are read")
	Assert(len(out.Objects) == 2, "there are two objects")
	taken, released, received, line.sent, line.to = 0, 0, 0, nil, nil
	replies = []interface{}{second}
	again, err := cl.ReadMultiProperty(device(), readSeveral(3))
	over(err, true, "the next values are read")
	isSecond(again, v)
	isReal(out.Objects[0].Properties[0], 85, noIndex, u)
	isReal(out.Objects[1].Properties[0], 85, noIndex, u)
	taken, released, received, line.sent, line.to = 0, 0, 0, nil, nil
	replies = []interface{}{append([]byte{0x30, id, 12}, answer(2, 3, 85, noIndex, real(v)...)...)}
	one, err := cl.ReadProperty(device(), propertyData(2, 3, 85, noIndex, nil, 0))
	over(err, true, "another value is read")
	Assert(len(one.Object.Properties) == 1, "it is one value")
	isReal(one.Object.Properties[0], 85, noIndex, v)
	isSecond(again, v)
}
