package thm

import (
	"errors"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
)

// N07: what is told about points and devices.

// ofPoint says whether the reads from the i-th on are those of a point's
// details, and how many these are.
func ofPoint(i int, typ, instance uint32) int {
	Assert(i < len(other.reads), "the name is asked")
	isAsked(other.reads[i], 1, 2, 3, typ, instance, 77, 0xffffffff)
	if typ == 3 || typ == 4 || typ == 5 {
		return 1
	}
	Assert(i+1 < len(other.reads), "the unit is asked")
	isAsked(other.reads[i+1], 1, 2, 3, typ, instance, 117, 0xffffffff)
	return 2
}

// isPoint compares what is told with the answers.
func isPoint(p *network.PointDetails, typ, instance uint32, name, unit interface{}) {
	Assert(p != nil && uint32(p.ObjectType) == typ && uint32(p.ObjectID) == instance, "the details are those of the point")
	Assert(p.PointType == p.ObjectType.String(), "the type is named")
	s, ok := name.(string)
	if ok {
		Assert(p.Name == s, "the name is that of the answer")
	} else {
		Assert(p.Name == "", "no name is made up")
	}
	u, ok := unit.(uint32)
	if ok && typ != 3 && typ != 4 && typ != 5 {
		Assert(p.Unit == u, "the unit is that of the answer")
	} else {
		Assert(p.Unit == 0 && p.UnitString == "", "no unit is made up")
	}
}

func unitOf(n byte) (uint32, string) {
	switch n {
	case 0:
		return 0, "SquareMeters"
	case 1:
		return 62, "DegreesCelsius"
	case 2:
		return 64, "DegreesFahrenheit"
	case 3:
		return 95, "NoUnits"
	case 4:
		return 98, "Percent"
	}
	return 19, "KilowattHours"
}

func typeOf(n byte) uint32 {
	switch n {
	case 0:
		return 0
	case 1:
		return 2
	case 2:
		return 3
	case 3:
		return 4
	case 4:
		return 5
	case 5:
		return 8
	case 6:
		return 19
	}
	return 900
}

func N07_Point(t, kind, kind2 byte, n uint16, instance, v uint32, f float32, s string) {
	u := uint32(n)
	typ := typeOf(t)
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{value(kind, v, f, s), value(kind2, u, f, s)}
	p, _ := d.PointDetails(&network.Point{ObjectID: btypes.ObjectInstance(instance), ObjectType: btypes.ObjectType(typ)})
	k := ofPoint(0, typ, instance)
	Assert(len(other.reads) == k && len(other.writes) == 0, "nothing else is asked")
	isPoint(p, typ, instance, other.answers[0], other.answers[1])
}

func N07_Type(t uint16) {
	d := anyDevice(1, 2, 3)
	p, _ := d.PointDetails(&network.Point{ObjectID: 1, ObjectType: btypes.ObjectType(t)})
	k := ofPoint(0, uint32(t), 1)
	Assert(len(other.reads) == k && len(other.writes) == 0, "nothing else is asked")
	isPoint(p, uint32(t), 1, nil, nil)
}

func N07_Unit(n byte) {
	d := anyDevice(1, 2, 3)
	u, unit := unitOf(n)
	other.answers = []interface{}{"a", u}
	p, _ := d.PointDetails(&network.Point{ObjectID: 1, ObjectType: 2})
	Assert(p.UnitString == unit, "the unit is named")
}

// The points of a device: all objects but the device.
func N07_Points(t, t2 byte, refused bool, instance, a, b uint32, s string) {
	at, bt := typeOf(t), typeOf(t2)
	d := anyDevice(1, 2, 3)
	instance = instance & 0x3fffff
	other.found = []btypes.Device{{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, MaxApdu: 480, Segmentation: 3}}
	list := []interface{}{btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(instance)}, btypes.ObjectID{Type: btypes.ObjectType(at), Instance: btypes.ObjectInstance(a)}, btypes.ObjectID{Type: btypes.ObjectType(bt), Instance: btypes.ObjectInstance(b)}}
	if refused {
		other.answers = []interface{}{errors.New("refused"), errors.New("refused")}
	} else {
		other.answers = []interface{}{list}
		for _, x := range []uint32{at, bt} {
			if x == 8 {
				continue
			}
			other.answers = append(other.answers, s)
			if x != 3 && x != 4 && x != 5 {
				other.answers = append(other.answers, uint32(62))
			}
		}
	}
	got, err := d.GetDevicePoints(btypes.ObjectInstance(instance))
	Assert(len(other.ranges) == 1 && len(other.writes) == 0, "the device is asked who it is")
	if refused {
		Assert(err != nil && len(got) == 0, "an error is reported")
		return
	}
	Assert(err == nil && len(other.reads) >= 1, "the points are returned")
	isAsked(other.reads[0], 1, 2, 3, 8, instance, 76, 0xffffffff)
	i, k := 1, 0
	for j, x := range []uint32{at, bt} {
		if x == 8 {
			continue
		}
		y := a
		if j == 1 {
			y = b
		}
		m := ofPoint(i, x, y)
		Assert(k < len(got), "each point is there")
		if m == 2 {
			isPoint(got[k], x, y, other.answers[i], other.answers[i+1])
		} else {
			isPoint(got[k], x, y, other.answers[i], nil)
		}
		i, k = i+m, k+1
	}
	Assert(len(got) == k && len(other.reads) == i, "there are no other points")
}

// What a device says about itself.
func N07_Device(at, kind byte, instance, limit, seg, v uint32, f float32, name, vendor string) {
	d := anyDevice(1, 2, 3)
	other.answers = []interface{}{name, limit, vendor, seg}
	k := upTo3(at)
	other.answers[k] = value(kind, v, f, name)
	got, err := d.GetDeviceDetails(btypes.ObjectInstance(instance))
	Assert(len(other.reads) == 4 && len(other.writes) == 0, "four properties are asked")
	isAsked(other.reads[0], 1, 2, 3, 8, instance, 77, 0xffffffff)
	isAsked(other.reads[1], 1, 2, 3, 8, instance, 62, 0xffffffff)
	isAsked(other.reads[2], 1, 2, 3, 8, instance, 121, 0xffffffff)
	isAsked(other.reads[3], 1, 2, 3, 8, instance, 107, 0xffffffff)
	Assert(err == nil || kind > 10, "an answer is an answer")
	if err != nil {
		return
	}
	Assert(got != nil, "the details are returned")
	text, ok := other.answers[0].(string)
	Assert(ok && got.Name == text || !ok && got.Name == "", "the name is that of the answer")
	n, ok := other.answers[1].(uint32)
	Assert(ok && got.MaxApdu == n || !ok && got.MaxApdu == 0, "the limit is that of the answer")
	text, ok = other.answers[2].(string)
	Assert(ok && got.VendorName == text || !ok && got.VendorName == "", "the vendor is that of the answer")
	n, ok = other.answers[3].(uint32)
	Assert(ok && got.Segmentation == n || !ok && got.Segmentation == 0, "the segmentation is that of the answer")
}
