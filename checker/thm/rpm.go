package thm

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

// access appends the access specifications of the objects (clauses 15.7, 15.10).
func access(w []byte, objects []btypes.Object, write bool) []byte {
	for _, o := range objects {
		w = ctxObject(w, 0, uint32(o.ID.Type)&0x3ff, uint32(o.ID.Instance)&0x3fffff)
		w = open(w, 1)
		for _, p := range o.Properties {
			w = ctx(w, 0, uint32(p.Type))
			if p.ArrayIndex != noIndex {
				w = ctx(w, 1, p.ArrayIndex)
			}
			if write {
				w = open(w, 2)
				e := encoding.NewEncoder()
				Assume(e.AppData(p.Data, false) == nil)
				w = append(w, e.Bytes()...)
				w = closeT(w, 2)
				if p.Priority != 0 {
					w = ctx(w, 3, uint32(p.Priority))
				}
			}
		}
		w = closeT(w, 1)
	}
	return w
}

// Whatever the lists are: if the request is encoded, these are its octets.
func W07_Read(id byte, objects []btypes.Object) {
	e := encoding.NewEncoder()
	if err := e.ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: objects}); err != nil {
		return
	}
	Equal(e.Bytes(), access([]byte{0, 5, id, 14}, objects, false), "the octets of ReadPropertyMultiple")
}

func object(typ, instance uint32, ps ...btypes.Property) btypes.Object {
	return btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ & 0x3ff), Instance: btypes.ObjectInstance(instance & 0x3fffff)}, Properties: ps}
}

func property(typ, index uint32, v interface{}, prio byte) btypes.Property {
	return btypes.Property{Type: btypes.PropertyType(typ), ArrayIndex: index, Data: v, Priority: btypes.NPDUPriority(prio)}
}

func checkRead(id byte, objects ...btypes.Object) {
	e := encoding.NewEncoder()
	err := e.ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: objects})
	Assert(err == nil && e.Error() == nil, "ReadPropertyMultiple is encoded")
	Equal(e.Bytes(), access([]byte{0, 5, id, 14}, objects, false), "the octets of ReadPropertyMultiple")
}

func W07_ReadOne(id byte, typ, instance, prop, index uint32) {
	checkRead(id, object(typ, instance, property(prop, index, nil, 0)))
}

func W07_ReadTwo(id byte, typ, instance, prop, index, prop2 uint32) {
	prop, prop2, index = prop&0xff, prop2&0xff, index&0xff
	checkRead(id, object(typ, instance, property(prop, index, nil, 0), property(prop2, noIndex, nil, 0)))
	checkRead(id, object(typ, instance, property(prop, noIndex, nil, 0)), object(instance, typ, property(prop2, index, nil, 0)))
}

func W07_ReadInvalid(id byte, typ, instance uint32, objects []btypes.Object) {
	if typ <= 0x3ff && instance <= 0x3fffff {
		return
	}
	o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(typ & 0xffff), Instance: btypes.ObjectInstance(instance)}, Properties: []btypes.Property{property(85, noIndex, nil, 0)}}
	Assume(typ <= 0xffff)
	err := encoding.NewEncoder().ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	Assert(err != nil, "an identifier out of range is rejected")
	err = encoding.NewEncoder().ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{object(0, 1), o}})
	Assert(err != nil, "a second identifier out of range is rejected")
	err = encoding.NewEncoder().WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{o}})
	Assert(err != nil, "a write with an identifier out of range is rejected")
}

func checkWriteMulti(id byte, objects ...btypes.Object) {
	e := encoding.NewEncoder()
	err := e.WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: objects})
	Assert(err == nil && e.Error() == nil, "WritePropertyMultiple is encoded")
	Equal(e.Bytes(), access([]byte{0, 5, id, 16}, objects, true), "the octets of WritePropertyMultiple")
}

func W07_WriteOne(id byte, typ, instance, prop, index uint32, v float32, prio byte) {
	checkWriteMulti(id, object(typ, instance, property(prop, index, v, prio)))
}

func W07_WriteTwo(id byte, typ, instance, index uint32, v float32, b bool, prio byte) {
	index = index & 0xff
	checkWriteMulti(id, object(typ, instance, property(85, noIndex, v, prio), property(81, index, b, 0)))
	checkWriteMulti(id, object(typ, instance, property(85, noIndex, v, prio)), object(instance, typ, property(85, index, b, prio)))
}

func W07_WriteInvalid(id byte, typ, instance uint32, v int64) {
	err := encoding.NewEncoder().WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{object(typ, instance, property(85, noIndex, v, 0))}})
	Assert(err != nil, "a value that can not be encoded is rejected")
	err = encoding.NewEncoder().WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{object(typ, instance, property(85, noIndex, v, 0), property(85, noIndex, true, 0))}})
	Assert(err != nil, "a first value that can not be encoded is rejected")
	err = encoding.NewEncoder().WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: []btypes.Object{object(typ, instance, property(85, noIndex, v, 0)), object(typ, instance, property(85, noIndex, true, 0))}})
	Assert(err != nil, "a value of the first object that can not be encoded is rejected")
}
