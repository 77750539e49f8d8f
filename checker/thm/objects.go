package thm

import (
	"errors"

	"github.com/NubeDev/bacnet/btypes"
)

// W15: the objects of a device, read with the requests below.

var (
	objects   []btypes.ObjectID // of the device
	failAt    int               // the request that fails
	shortAt   int               // the request that is answered in part
	wrongAt   int               // the request that is answered with another type
	thinAt    int               // the request that is answered with too few properties
	thickAt   int               // the request that is answered with too many properties
	otherAt   int               // the object whose place in the answer another one has
	another   btypes.ObjectID   // the other one
	requests  int
	nameLists int
)

func step() (short bool, wrong bool, err error) {
	requests++
	if requests == failAt {
		return false, false, errors.New("refused")
	}
	return requests == shortAt, requests == wrongAt, nil
}

func readOne(c interface{}, dev btypes.Device, rp btypes.PropertyData) (btypes.PropertyData, error) {
	short, wrong, err := step()
	if err != nil {
		return btypes.PropertyData{}, err
	}
	Assert(rp.Object.ID == dev.ID && len(rp.Object.Properties) == 1, "the device is asked about itself")
	p := rp.Object.Properties[0]
	Assert(p.Type == 76 && p.ArrayIndex == 0, "the length of the object list is asked")
	out := btypes.PropertyData{Object: btypes.Object{ID: rp.Object.ID}}
	if short {
		return out, nil
	}
	p.Data = uint32(len(objects))
	if wrong {
		p.Data = "?"
	}
	out.Object.Properties = []btypes.Property{p}
	return out, nil
}

func readMany(c interface{}, dev btypes.Device, rp btypes.MultiplePropertyData) (btypes.MultiplePropertyData, error) {
	short, wrong, err := step()
	if err != nil {
		return btypes.MultiplePropertyData{}, err
	}
	Assert(len(rp.Objects) > 0, "something is asked")
	out := btypes.MultiplePropertyData{}
	if len(rp.Objects) == 1 && len(rp.Objects[0].Properties) > 0 && rp.Objects[0].Properties[0].Type == 76 {
		o := btypes.Object{ID: rp.Objects[0].ID}
		Assert(o.ID == dev.ID, "the device is asked about itself")
		n := len(rp.Objects[0].Properties)
		// an element takes 11 octets of the answer, what precedes them 10
		Assert(dev.MaxApdu == 0 || n == 1 || 10+11*n <= int(dev.MaxApdu), "the device can answer")
		for i, p := range rp.Objects[0].Properties {
			Assert(p.Type == 76 && p.ArrayIndex >= 1 && p.ArrayIndex <= uint32(len(objects)), "the elements of the list are asked")
			if short && i == 0 {
				continue
			}
			p.Data = objects[p.ArrayIndex-1]
			if wrong {
				p.Data = "?"
			}
			o.Properties = append(o.Properties, p)
		}
		out.Objects = []btypes.Object{o}
		return out, nil
	}
	nameLists++
	for i, x := range rp.Objects {
		Assert(len(x.Properties) == 2 && x.Properties[0].Type == 77 && x.Properties[0].ArrayIndex == 0xffffffff && x.Properties[1].Type == 28 && x.Properties[1].ArrayIndex == 0xffffffff, "name and description are asked")
		if short && i == 0 {
			continue
		}
		n, d := x.Properties[0], x.Properties[1]
		n.Data, d.Data = nameOf(x.ID), descriptionOf(x.ID)
		if wrong {
			d.Data = uint32(1)
		}
		l := []btypes.Property{n, d}
		if requests == thinAt {
			l = l[:1]
		}
		if requests == thickAt {
			l = append(l, n)
		}
		id := x.ID
		if otherAt == i+1 {
			id = another
		}
		out.Objects = append(out.Objects, btypes.Object{ID: id, Properties: l})
	}
	return out, nil
}

func nameOf(id btypes.ObjectID) string {
	for i := range objects {
		if i >= 12 {
			return "more"
		}
		if objects[i] == id {
			return [12]string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}[i]
		}
	}
	return "?"
}

func descriptionOf(id btypes.ObjectID) string { return nameOf(id) + " described" }

func theDevice(size byte, list []btypes.ObjectID) btypes.Device {
	objects = list
	failAt, shortAt, wrongAt, thinAt, thickAt, otherAt, requests, nameLists = 0, 0, 0, 0, 0, 0, 0, 0
	dev := btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: 5}, Addr: address(10, 0, 0, 2, 47808)}
	switch size & 3 {
	case 1:
		dev.MaxApdu = 50
	case 2:
		dev.MaxApdu = 480
	case 3:
		dev.MaxApdu = 20
	}
	return dev
}

func haveAll(dev btypes.Device, err error) {
	Assert(err == nil, "the objects are returned")
	for _, id := range objects {
		o, ok := dev.Objects[id.Type][id.Instance]
		Assert(ok && o.ID == id, "each object is there")
		if id.Type <= 128 {
			Assert(o.Name == nameOf(id) && o.Description == descriptionOf(id), "with its name and description")
		}
	}
	Assert(dev.Objects.Len() <= len(objects), "there are no other objects")
}

// Lists that are read in several steps.
func W15_Many(size, n byte) {
	k := 5
	switch n {
	case 0:
		k = 6
	case 1:
		k = 7
	case 2:
		k = 12
	}
	list := make([]btypes.ObjectID, k)
	for i := range list {
		list[i] = btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(i)}
	}
	cl := newClient(1)
	dev, err := cl.Objects(theDevice(size, list))
	haveAll(dev, err)
	Assert(dev.Objects.Len() == k, "all objects are there")
}

func W15_None(size byte) {
	cl := newClient(1)
	dev, err := cl.Objects(theDevice(size, nil))
	haveAll(dev, err)
}

func W15_One(size byte, a uint32) {
	cl := newClient(1)
	dev, err := cl.Objects(theDevice(size, []btypes.ObjectID{anObject(a)}))
	haveAll(dev, err)
}

func W15_Two(size byte, at, bt uint16, a, b uint32) {
	cl := newClient(1)
	dev, err := cl.Objects(theDevice(size, []btypes.ObjectID{{Type: btypes.ObjectType(at), Instance: btypes.ObjectInstance(a)}, {Type: btypes.ObjectType(bt), Instance: btypes.ObjectInstance(b)}}))
	haveAll(dev, err)
}

func W15_Fails(size, at, how byte, a uint32) {
	cl := newClient(1)
	dev := theDevice(size, []btypes.ObjectID{{Type: 8, Instance: 5}, anObject(a)})
	k := 1 + upTo3(at)
	switch how % 3 {
	case 0:
		failAt = k
	case 1:
		shortAt = k
	case 2:
		wrongAt = k
	}
	_, err := cl.Objects(dev)
	Assert(requests < k || err != nil, "what goes wrong on the way is reported")
}

// Objects that have too few properties, or too many.
func W15_Properties(size byte, more bool, a uint32) {
	cl := newClient(1)
	dev := theDevice(size, []btypes.ObjectID{{Type: 8, Instance: 5}, {Type: 2, Instance: btypes.ObjectInstance(a & 0x3fffff)}})
	for k := 2; k < 6; k++ {
		thinAt, thickAt, requests, nameLists = k, 0, 0, 0
		if more {
			thinAt, thickAt = 0, k
		}
		_, err := cl.Objects(dev)
		Assert(nameLists == 0 || requests != k || err != nil, "an object without name and description is reported")
	}
}

// An answer that tells about another object than was asked for.
func W15_Other(size byte, at, typ uint16, a uint32) {
	list := []btypes.ObjectID{{Type: 8, Instance: 5}, {Type: 2, Instance: 7}, {Type: 0, Instance: 7}}
	cl := newClient(1)
	dev := theDevice(size, list)
	otherAt = 3
	if at < 2 {
		otherAt = 2
	}
	if at == 0 {
		otherAt = 1
	}
	another = btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(a)}
	Assume(another != list[0] && another != list[1] && another != list[2])
	_, err := cl.Objects(dev)
	Assert(err != nil, "an answer about another object is reported")
}
