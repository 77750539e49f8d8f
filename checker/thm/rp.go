package thm

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

const noIndex = ^uint32(0)

// readOctets is the sequence of a reference to a property (clause 15.5).
func reference(w []byte, typ, instance, prop, index uint32) []byte {
	w = ctxObject(w, 0, typ, instance)
	w = ctx(w, 1, prop)
	if index != noIndex {
		w = ctx(w, 2, index)
	}
	return w
}

func propertyData(typ, instance, prop, index uint32, v interface{}, prio byte) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(instance)},
		Properties: []btypes.Property{{Type: btypes.PropertyType(prop), ArrayIndex: index, Data: v, Priority: btypes.NPDUPriority(prio)}}}}
}

func W06_Read(id byte, typ, instance, prop, index uint32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	Assume(prop <= 4194303)
	e := encoding.NewEncoder()
	err := e.ReadProperty(id, propertyData(typ, instance, prop, index, nil, 0))
	Assert(err == nil && e.Error() == nil, "ReadProperty is encoded")
	Equal(e.Bytes(), reference([]byte{0, 5, id, 12}, typ, instance, prop, index), "the octets of ReadProperty")
}

func W06_ReadInvalid(id byte, typ, instance, prop, index uint32) {
	if typ <= 0x3ff && instance <= 0x3fffff && prop <= 4194303 {
		return
	}
	Assume(typ < 1<<16)
	e := encoding.NewEncoder()
	err := e.ReadProperty(id, propertyData(typ, instance, prop, index, nil, 0))
	Assert(err != nil, "a request with identifiers out of range is rejected")
	e = encoding.NewEncoder()
	err = e.WriteProperty(id, propertyData(typ, instance, prop, index, false, 0))
	Assert(err != nil, "a write with identifiers out of range is rejected")
}

func W06_ReadNothing(id byte, typ, instance uint32) {
	data := propertyData(typ&0x3ff, instance&0x3fffff, 0, 0, nil, 0)
	data.Object.Properties = nil
	err := encoding.NewEncoder().ReadProperty(id, data)
	Assert(err != nil, "a request without a property is rejected")
	err = encoding.NewEncoder().WriteProperty(id, data)
	Assert(err != nil, "a write without a property is rejected")
}

func checkWrite(id byte, typ, instance, prop, index uint32, v interface{}, prio byte, value []byte) {
	e := encoding.NewEncoder()
	err := e.WriteProperty(id, propertyData(typ, instance, prop, index, v, prio))
	Assert(err == nil && e.Error() == nil, "WriteProperty is encoded")
	w := reference([]byte{0, 5, id, 15}, typ, instance, prop, index)
	w = closeT(append(open(w, 3), value...), 3)
	if prio != 0 {
		w = ctx(w, 4, uint32(prio))
	}
	Equal(e.Bytes(), w, "the octets of WriteProperty")
}

func W06_WriteAnalog(id byte, typ, instance, prop, index uint32, v float32, prio byte) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	Assume(prop <= 4194303)
	if prop == 85 && (typ == 4 || typ == 5) {
		return
	}
	checkWrite(id, typ, instance, prop, index, v, prio, encoded(v, false))
}

func W06_WriteText(id byte, typ, instance, index uint32, v string, prio byte) {
	checkWrite(id, typ&0x3ff, instance&0x3fffff, 77, index, v, prio, encoded(v, false))
}

func W06_WriteUnsigned(id byte, typ, instance, prop, index, v uint32, prio byte) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	Assume(prop <= 4194303)
	// The present value of a binary output and of a binary value is enumerated.
	if prop == 85 && (typ == 4 || typ == 5) {
		checkWrite(id, typ, instance, prop, index, v, prio, app(nil, 9, v))
		return
	}
	checkWrite(id, typ, instance, prop, index, v, prio, app(nil, 2, v))
}

func W06_WriteInvalid(id byte, instance uint32, v int64, f float32) {
	err := encoding.NewEncoder().WriteProperty(id, propertyData(2, instance&0x3fffff, 85, noIndex, v, 0))
	Assert(err != nil, "a write of a value that can not be encoded is rejected")
	err = encoding.NewEncoder().WriteProperty(id, propertyData(5, instance&0x3fffff, 85, noIndex, f, 0))
	Assert(err != nil, "a write of an analog value to a binary point is rejected")
}
