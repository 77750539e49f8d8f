package thm

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

// Clause 20.1.2: a confirmed request.
func confirmed(a btypes.APDU) []byte {
	first := byte(0)
	if a.SegmentedMessage {
		first |= 8
	}
	if a.MoreFollows {
		first |= 4
	}
	if a.SegmentedResponseAccepted {
		first |= 2
	}
	w := []byte{first, segs(a.MaxSegs)<<4 | size50(a.MaxApdu), a.InvokeId}
	if a.SegmentedMessage {
		w = append(w, a.Sequence, a.WindowNumber)
	}
	return append(w, byte(a.Service))
}

// segs is clause 20.1.2.4.
func segs(n uint) byte {
	switch {
	case n < 2:
		return 0
	case n < 4:
		return 1
	case n < 8:
		return 2
	case n < 16:
		return 3
	case n < 32:
		return 4
	case n < 64:
		return 5
	case n == 64:
		return 6
	}
	return 7
}

// size50 is clause 20.1.2.5.
func size50(n uint) byte {
	switch {
	case n <= 50:
		return 0
	case n <= 128:
		return 1
	case n <= 206:
		return 2
	case n <= 480:
		return 3
	case n <= 1024:
		return 4
	}
	return 5
}

func W05_Confirmed(segmented, more, accepted bool, maxSegs, maxApdu uint, id, seq, window, service byte) {
	Assume(maxApdu <= 1476)
	a := btypes.APDU{DataType: btypes.ConfirmedServiceRequest, SegmentedMessage: segmented, MoreFollows: more, SegmentedResponseAccepted: accepted,
		MaxSegs: maxSegs, MaxApdu: maxApdu, InvokeId: id, Sequence: seq, WindowNumber: window, Service: btypes.ServiceConfirmed(service)}
	e := encoding.NewEncoder()
	err := e.APDU(a)
	Assert(err == nil && e.Error() == nil, "the header of a confirmed request is encoded")
	Equal(e.Bytes(), confirmed(a), "the octets of the header of a confirmed request")
}

func W05_Unconfirmed(service byte) {
	e := encoding.NewEncoder()
	err := e.APDU(btypes.APDU{DataType: btypes.UnconfirmedServiceRequest, UnconfirmedService: btypes.ServiceUnconfirmed(service)})
	Assert(err == nil && e.Error() == nil, "the header of an unconfirmed request is encoded")
	Equal(e.Bytes(), []byte{0x10, service}, "the octets of the header of an unconfirmed request")
}

func W05_Complex(id, service byte) {
	e := encoding.NewEncoder()
	err := e.APDU(btypes.APDU{DataType: btypes.ComplexAck, InvokeId: id, Service: btypes.ServiceConfirmed(service)})
	Assert(err == nil && e.Error() == nil, "the header of an answer is encoded")
	Equal(e.Bytes(), []byte{0x30, id, service}, "the octets of the header of an answer")
}

func W05_ConfirmedBack(first, limits, id, seq, window, service byte, rest []byte) {
	first &= 0x0e
	limits &= 0x7f
	b := []byte{first, limits, id}
	if first&8 != 0 {
		b = append(b, seq, window)
	}
	b = append(b, service)
	d := encoding.NewDecoder(append(b, rest...))
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil && a.DataType == btypes.ConfirmedServiceRequest, "a confirmed request is recognised")
	Assert(a.SegmentedMessage == (first&8 != 0), "segmentation is decoded")
	Assert(a.MoreFollows == (first&4 != 0), "the more-follows flag is decoded")
	Assert(a.SegmentedResponseAccepted == (first&2 != 0), "the segmented-response-accepted flag is decoded")
	Assert(a.InvokeId == id && byte(a.Service) == service, "invoke id and service are decoded")
	if first&8 != 0 {
		Assert(a.Sequence == seq && a.WindowNumber == window, "the segment is decoded")
	}
	Equal(a.RawData, rest, "the parameters of the request are kept")
	switch limits & 0x0f {
	case 0:
		Assert(a.MaxApdu == 50, "up to minimum message size")
	case 1:
		Assert(a.MaxApdu == 128, "128 octets")
	case 2:
		Assert(a.MaxApdu == 206, "206 octets")
	case 3:
		Assert(a.MaxApdu == 480, "480 octets")
	case 4:
		Assert(a.MaxApdu == 1024, "1024 octets")
	case 5:
		Assert(a.MaxApdu == 1476, "1476 octets")
	}
	switch limits >> 4 {
	case 1:
		Assert(a.MaxSegs == 2, "2 segments")
	case 2:
		Assert(a.MaxSegs == 4, "4 segments")
	case 3:
		Assert(a.MaxSegs == 8, "8 segments")
	case 4:
		Assert(a.MaxSegs == 16, "16 segments")
	case 5:
		Assert(a.MaxSegs == 32, "32 segments")
	case 6:
		Assert(a.MaxSegs == 64, "64 segments")
	case 7:
		Assert(a.MaxSegs > 64, "more than 64 segments")
	}
}

func W05_UnconfirmedBack(service byte, rest []byte) {
	d := encoding.NewDecoder(append([]byte{0x10, service}, rest...))
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil && a.DataType == btypes.UnconfirmedServiceRequest && byte(a.UnconfirmedService) == service, "an unconfirmed request is recognised")
	Equal(a.RawData, rest, "the parameters of the request are kept")
}

func W05_Ack(id, service byte, rest []byte) {
	d := encoding.NewDecoder(append([]byte{0x20, id, service}, rest...))
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil && a.DataType == btypes.SimpleAck && a.InvokeId == id && byte(a.Service) == service, "a simple acknowledgement is recognised")
	d = encoding.NewDecoder(append([]byte{0x30, id, service}, rest...))
	err = d.APDU(&a)
	Assert(err == nil && a.DataType == btypes.ComplexAck && a.InvokeId == id && byte(a.Service) == service, "an answer is recognised")
	Equal(d.Bytes(), rest, "the answer follows")
}

func errorPDU(w []byte, id, service byte, class, code uint32) {
	d := encoding.NewDecoder(w)
	var a btypes.APDU
	err := d.APDU(&a)
	Assert(err == nil && a.DataType == btypes.Error && a.InvokeId == id && byte(a.Service) == service, "an error is recognised")
	Assert(uint32(a.Error.Class) == class, "the class of the error is decoded")
	Assert(uint32(a.Error.Code) == code, "the code of the error is decoded")
}

func W05_Error(id, service byte, class, code uint32) {
	class, code = class&0xffff, code&0xffff
	errorPDU(app(app([]byte{0x50, id, service}, 9, class), 9, code), id, service, class, code)
}

func W05_ErrorConstructed(id, service byte, class, code uint32) {
	class, code = class&0xffff, code&0xffff
	errorPDU(append(app(app([]byte{0x50, id, service, 0x0e}, 9, class), 9, code), 0x0f), id, service, class, code)
}

func W05_Others(typ byte, rest []byte) {
	typ &= 0xf0
	if typ < 0x40 || typ == 0x50 {
		return
	}
	var a btypes.APDU
	err := encoding.NewDecoder(append([]byte{typ}, rest...)).APDU(&a)
	Assert(err != nil, "other messages are not taken for answers")
	e := encoding.NewEncoder()
	err = e.APDU(btypes.APDU{DataType: btypes.PDUType(typ)})
	Assert(err != nil, "other messages are not sent")
}
