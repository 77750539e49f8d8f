package thm

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

func W10_WhoIs(low, high int32) {
	e := encoding.NewEncoder()
	err := e.WhoIs(low, high)
	Assert(err == nil, "Who-Is is encoded")
	w := []byte{0x10, 8}
	if low >= 0 && high >= 0 && low < 4194303 && high < 4194303 {
		w = ctx(w, 0, uint32(low))
		w = ctx(w, 1, uint32(high))
	}
	Equal(e.Bytes(), w, "the octets of Who-Is")
}

func W10_WhoIsBack(low, high int32) {
	e := encoding.NewEncoder()
	if err := e.WhoIs(low, high); err != nil {
		return
	}
	d := encoding.NewDecoder(e.Bytes())
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil, "the header of Who-Is is decoded")
	Assert(a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedWhoIs, "Who-Is is recognised")
	var l, h int32
	err = encoding.NewDecoder(a.RawData).WhoIs(&l, &h)
	Assert(err == nil, "Who-Is is decoded")
	if low >= 0 && high >= 0 && low < 4194303 && high < 4194303 {
		Assert(l == low && h == high, "the range survives")
	} else {
		Assert(l == -1 && h == -1, "no range means all")
	}
}

func W10_IAm(typ, instance, maxApdu, seg, vendor uint32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	e := encoding.NewEncoder()
	err := e.IAm(btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(instance)},
		MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor})
	Assert(err == nil, "I-Am is encoded")
	w := []byte{0x10, 0}
	w = put(append(w, 0xc4), typ<<22|instance, 4)
	w = app(w, 2, maxApdu)
	w = app(w, 9, seg)
	w = app(w, 2, vendor)
	Equal(e.Bytes(), w, "the octets of I-Am")
}

func W10_IAmBack(typ, instance, maxApdu, seg, vendor uint32) {
	typ, instance = typ&0x3ff, instance&0x3fffff
	in := btypes.IAm{ID: btypes.ObjectID{Type: btypes.ObjectType(typ), Instance: btypes.ObjectInstance(instance)},
		MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor}
	e := encoding.NewEncoder()
	if err := e.IAm(in); err != nil {
		return
	}
	d := encoding.NewDecoder(e.Bytes())
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil && a.UnconfirmedService == btypes.ServiceUnconfirmedIAm, "the header of I-Am is decoded")
	var out btypes.IAm
	err = encoding.NewDecoder(a.RawData).IAm(&out)
	Assert(err == nil, "I-Am is decoded")
	Same(out.ID, in.ID, "the device survives")
	Same(out.MaxApdu, in.MaxApdu, "the size survives")
	Same(out.Segmentation, in.Segmentation, "the segmentation survives")
	Same(out.Vendor, in.Vendor, "the vendor survives")
}

// What is not a Who-Is, or not an I-Am, is reported.

func W10_NotWhoIs(tag, low, high byte) {
	tag &= 7
	var l, h int32
	w := []byte{9, low, 0x19, high}
	err := encoding.NewDecoder(w).WhoIs(&l, &h)
	Assert(err == nil && l == int32(low) && h == int32(high), "a range is decoded")
	if tag != 0 {
		Assert(encoding.NewDecoder([]byte{tag<<4 | 9, low, 0x19, high}).WhoIs(&l, &h) != nil, "a range that does not start with the low limit is reported")
	}
	if tag != 1 {
		Assert(encoding.NewDecoder([]byte{9, low, tag<<4 | 9, high}).WhoIs(&l, &h) != nil, "a range without a high limit is reported")
	}
	for n := 1; n < 4; n++ {
		Assert(encoding.NewDecoder(w[:n]).WhoIs(&l, &h) != nil, "a truncated range is reported")
	}
}

// iamFields are the fields of an I-Am.
func iamFields(instance, maxApdu, seg, vendor uint32) [][]byte {
	return [][]byte{put([]byte{0xc4}, 8<<22|instance, 4), app(nil, 2, maxApdu), app(nil, 9, seg), app(nil, 2, vendor)}
}

func joined(fields [][]byte) []byte {
	var w []byte
	for _, f := range fields {
		w = append(w, f...)
	}
	return w
}

func W10_NotIAm(instance, maxApdu, vendor uint32, at, how byte) {
	instance, maxApdu, vendor = instance&0x3fffff, maxApdu&0xff, vendor&0xff
	for i := 0; i < 4; i++ {
		for j, x := range [][]byte{{0x11}, {0}, {0x44, 0x40, 0, 0, 0}, {0x75, 2, 0, 'a'}, {0xa4, 118, 1, 1, 1}} {
			if int(at) != i || int(how) != j {
				continue
			}
			f := iamFields(instance, maxApdu, 3, vendor)
			f[i] = x
			var out btypes.IAm
			Assert(encoding.NewDecoder(joined(f)).IAm(&out) != nil, "an I-Am with a field of another type is reported")
		}
	}
	w := joined(iamFields(instance, maxApdu, 3, vendor))
	for n := range w {
		var out btypes.IAm
		if int(at) == n {
			Assert(encoding.NewDecoder(w[:n]).IAm(&out) != nil, "a truncated I-Am is reported")
		}
	}
}
