package thm

import (
	"errors"

	"github.com/NubeDev/bacnet/btypes"
)

// B02: the objects of a device survive JSON. The package encoding/json keeps
// what it is given.

type byName = map[string]map[btypes.ObjectInstance]btypes.Object

var inJSON byName
var jsonErr error

func jsonMarshal(v interface{}) ([]byte, error) {
	if jsonErr != nil {
		return nil, jsonErr
	}
	m, ok := v.(byName)
	Assert(ok, "what becomes JSON are the objects by the names of their types")
	inJSON = m
	return []byte{1, 2}, nil
}

func jsonUnmarshal(data []byte, v interface{}) error {
	if jsonErr != nil {
		return jsonErr
	}
	Assert(len(data) == 2 && data[0] == 1 && data[1] == 2, "the JSON is the one that was given")
	p, ok := v.(*byName)
	Assert(ok, "the objects come by the names of their types")
	if *p == nil {
		*p = byName{}
	}
	for k, x := range inJSON {
		sub := map[btypes.ObjectInstance]btypes.Object{}
		for i, y := range x {
			sub[i] = y
		}
		(*p)[k] = sub
	}
	return nil
}

func objectOf(t uint16, i uint32, name string) btypes.Object {
	return btypes.Object{Name: name, Description: name + "!", ID: btypes.ObjectID{Type: btypes.ObjectType(t), Instance: btypes.ObjectInstance(i)}}
}

func sameObject(o btypes.ObjectMap, t uint16, i uint32, name string) bool {
	x, ok := o[btypes.ObjectType(t)][btypes.ObjectInstance(i)]
	return ok && uint16(x.ID.Type) == t && uint32(x.ID.Instance) == i && x.Name == name && x.Description == name+"!"
}

// throughJSON is what becomes of objects.
func throughJSON(from btypes.ObjectMap, to *btypes.ObjectMap) error {
	jsonErr = nil
	b, err := from.MarshalJSON()
	Assert(err == nil, "objects have a JSON")
	return to.UnmarshalJSON(b)
}

func B02_One(t uint16, i uint32, name string) {
	o := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	var back btypes.ObjectMap
	err := throughJSON(o, &back)
	Assert(err == nil, "the JSON of objects has objects")
	Assert(back.Len() == 1 && o.Len() == 1, "there is one object")
	Assert(sameObject(back, t, i, name), "the object is the one that was there")
	Assert(sameObject(o, t, i, name), "the objects are left as they are")
}

// two objects go through JSON and come back.
func twoObjects(o btypes.ObjectMap, want int, t, u uint16, i, j uint32, name, other string) {
	Assert(o.Len() == want, "every object is counted")
	back := btypes.ObjectMap{}
	err := throughJSON(o, &back)
	Assert(err == nil, "the JSON of objects has objects")
	Assert(back.Len() == want && sameObject(back, t, i, name) && sameObject(back, u, j, other), "the objects are the ones that were there")
}

func B02_TwoOfOneType(t uint16, i, j uint32, name, other string) {
	o := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	o[btypes.ObjectType(t)][btypes.ObjectInstance(j)] = objectOf(t, j, other)
	if i == j {
		twoObjects(o, 1, t, t, i, i, other, other)
	} else {
		twoObjects(o, 2, t, t, i, j, name, other)
	}
}

func twoTypes(t, u uint16, i, j uint32, name, other string) {
	if t == u {
		return
	}
	o := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	o[btypes.ObjectType(u)] = map[btypes.ObjectInstance]btypes.Object{btypes.ObjectInstance(j): objectOf(u, j, other)}
	twoObjects(o, 2, t, u, i, j, name, other)
}

func B02_TwoTypes(t uint16, i, j uint32, name, other string) {
	twoTypes(t, 2, i, j, name, other)
}

func B02_OtherTypes(t uint16, i, j uint32, name, other string) {
	twoTypes(t, 1000, i, j, name, other)
}

// None of the types has a name.
func B02_Unnamed(t, u byte, i, j uint32, name, other string) {
	twoTypes(41+uint16(t), 41+uint16(u), i, j, name, other)
}

// Objects that are there already are kept.
func B02_Kept(t uint16, i, j uint32, name, other string) {
	o := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	if t == 2 {
		return
	}
	to := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(j): objectOf(t, j, other)}, btypes.AnalogValue: {7: objectOf(2, 7, other)}}
	err := throughJSON(o, &to)
	Assert(err == nil, "the JSON of objects has objects")
	Assert(sameObject(to, t, i, name), "the object is there")
	Assert(i == j || sameObject(to, t, j, other), "what was there is kept")
	Assert(sameObject(to, 2, 7, other), "what was there is kept")
}

// What can not be is reported, and nothing is put among other objects.
func B02_Failures(t uint16, i uint32, name string, k byte) {
	o := btypes.ObjectMap{btypes.ObjectType(t): {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	jsonErr = errors.New("no JSON")
	_, err := o.MarshalJSON()
	Assert(err != nil, "the failure is reported")
	var back btypes.ObjectMap
	err = back.UnmarshalJSON([]byte{1, 2})
	Assert(err != nil && back.Len() == 0, "the failure is reported")
	jsonErr = nil
	what := "Nonsense"
	if k == 1 {
		what = ""
	}
	if k == 2 {
		what = "analogInput"
	}
	if k == 3 {
		what = "Unknown (x)"
	}
	inJSON = byName{what: {btypes.ObjectInstance(i): objectOf(t, i, name)}}
	err = back.UnmarshalJSON([]byte{1, 2})
	Assert(err != nil && back.Len() == 0, "a type that does not exist is reported")
}

func B02_Nothing() {
	var o, back btypes.ObjectMap
	Assert(o.Len() == 0, "there is no object")
	err := throughJSON(o, &back)
	Assert(err == nil && back.Len() == 0, "there is no object")
}
