package thm

import (
	"errors"
	"math"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/encoding"
	textencoding "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/unicode"
)

func decodedOf(rest []byte, head ...byte) interface{} {
	v, d := decoded(append(head, rest...))
	Equal(d.Bytes(), rest, "no more than the value is consumed")
	return v
}

func W02_Null(rest []byte) {
	_, ok := decodedOf(rest, 0).(null.Null)
	Assert(ok, "Null is decoded")
}

func W02_Bool(rest []byte) {
	x, ok := decodedOf(rest, 0x10).(bool)
	Assert(ok && !x, "false is decoded")
	x, ok = decodedOf(rest, 0x11).(bool)
	Assert(ok && x, "true is decoded")
}

func number(v interface{}, want uint32) {
	x, ok := v.(uint32)
	Assert(ok && x == want, "the number is decoded")
}

func W02_Unsigned(a, b, c, d byte, rest []byte) {
	number(decodedOf(rest, 0x21, a), uint32(a))
	number(decodedOf(rest, 0x22, a, b), uint32(a)<<8|uint32(b))
	number(decodedOf(rest, 0x23, a, b, c), uint32(a)<<16|uint32(b)<<8|uint32(c))
	number(decodedOf(rest, 0x24, a, b, c, d), uint32(a)<<24|uint32(b)<<16|uint32(c)<<8|uint32(d))
}

func W02_Enumerated(a, b, c, d byte, rest []byte) {
	number(decodedOf(rest, 0x91, a), uint32(a))
	number(decodedOf(rest, 0x92, a, b), uint32(a)<<8|uint32(b))
	number(decodedOf(rest, 0x93, a, b, c), uint32(a)<<16|uint32(b)<<8|uint32(c))
	number(decodedOf(rest, 0x94, a, b, c, d), uint32(a)<<24|uint32(b)<<16|uint32(c)<<8|uint32(d))
}

// The length of a tag can be extended even if that is not needed.
func W02_ExtendedLength(a, b byte, rest []byte) {
	number(decodedOf(rest, 0x25, 2, a, b), uint32(a)<<8|uint32(b))
	number(decodedOf(rest, 0x25, 254, 0, 2, a, b), uint32(a)<<8|uint32(b))
	number(decodedOf(rest, 0x25, 255, 0, 0, 0, 2, a, b), uint32(a)<<8|uint32(b))
}

func integer(v interface{}, want int32) {
	x, ok := v.(int32)
	Assert(ok && x == want, "the number is decoded")
}

func W02_Signed(a, b, c, d byte, rest []byte) {
	integer(decodedOf(rest, 0x31, a), int32(int8(a)))
	integer(decodedOf(rest, 0x32, a, b), int32(int8(a))<<8+int32(b))
	integer(decodedOf(rest, 0x33, a, b, c), int32(int8(a))<<16+int32(b)<<8+int32(c))
	integer(decodedOf(rest, 0x34, a, b, c, d), int32(int8(a))<<24+int32(b)<<16+int32(c)<<8+int32(d))
}

func W02_Real(a, b, c, d byte, rest []byte) {
	x, ok := decodedOf(rest, 0x44, a, b, c, d).(float32)
	Assert(ok && math.Float32bits(x) == uint32(a)<<24|uint32(b)<<16|uint32(c)<<8|uint32(d), "the real is decoded")
}

func W02_Double(a, b, c, d, e, f, g, h byte, rest []byte) {
	x, ok := decodedOf(rest, 0x55, 8, a, b, c, d, e, f, g, h).(float64)
	Assert(ok && math.Float64bits(x) == uint64(a)<<56|uint64(b)<<48|uint64(c)<<40|uint64(d)<<32|uint64(e)<<24|uint64(f)<<16|uint64(g)<<8|uint64(h), "the double is decoded")
}

func W02_Object(a, b, c, d byte, rest []byte) {
	x, ok := decodedOf(rest, 0xc4, a, b, c, d).(btypes.ObjectID)
	Assert(ok && uint32(x.Type) == uint32(a)<<2|uint32(b)>>6, "the type of the object is decoded")
	Assert(uint32(x.Instance) == (uint32(b)&0x3f)<<16|uint32(c)<<8|uint32(d), "the instance of the object is decoded")
}

func octets(v interface{}, want []byte) {
	x, ok := v.([]byte)
	Assert(ok, "octets are decoded")
	Equal(x, want, "octets are decoded")
}

func W02_Octets(a, b, c, d byte, long []byte, rest []byte) {
	octets(decodedOf(rest, 0x60), nil)
	octets(decodedOf(rest, 0x61, a), []byte{a})
	octets(decodedOf(rest, 0x64, a, b, c, d), []byte{a, b, c, d})
	if len(long) > 4 && len(long) < 254 {
		octets(decodedOf(rest, append([]byte{0x65, byte(len(long))}, long...)...), long)
	}
	if len(long) >= 254 && len(long) < 65536 {
		octets(decodedOf(rest, append([]byte{0x65, 254, byte(len(long) >> 8), byte(len(long))}, long...)...), long)
	}
	if len(long) >= 65536 && len(long) < 1<<31 {
		octets(decodedOf(rest, append(put([]byte{0x65, 255}, uint32(len(long)), 4), long...)...), long)
	}
}

func text(v interface{}, want []byte) {
	x, ok := v.(string)
	Assert(ok, "text is decoded")
	Equal([]byte(x), want, "text is decoded")
}

func W02_Text(a, b, c byte, n uint16, long []byte, rest []byte) {
	text(decodedOf(rest, 0x71, 0), nil)
	text(decodedOf(rest, 0x74, 0, a, b, c), []byte{a, b, c})
	if len(long) > 3 && len(long) < 253 {
		text(decodedOf(rest, append([]byte{0x75, byte(len(long) + 1), 0}, long...)...), long)
	}
	if len(long) >= 253 && len(long) < 65535 {
		Assume(int(n) == len(long)+1)
		text(decodedOf(rest, append([]byte{0x75, 254, byte(n >> 8), byte(n), 0}, long...)...), long)
	}
}

// Character sets other than UTF-8 and UCS-2 are not taken for text.
func W02_Charset(set byte, rest []byte) {
	if set == 0 || set == 4 {
		return
	}
	d := encoding.NewDecoder(append([]byte{0x72, set}, rest...))
	_, err := d.AppData()
	Assert(err != nil, "an unsupported character set is reported")
}

func bit(b byte, i uint) bool { return b>>(7-i)&1 == 1 }

func W02_Bits(unused, a, b byte, rest []byte) {
	v := decodedOf(rest, 0x81, 0)
	s, ok := v.(*btypes.BitString)
	Assert(ok && s != nil && s.GetBitUsed() == 0, "an empty bit string is decoded")
	unused &= 7
	v = decodedOf(rest, 0x82, unused, a)
	s, ok = v.(*btypes.BitString)
	Assert(ok && s != nil && s.GetBitUsed() == 8-unused, "the length of the bit string is decoded")
	Assert(s.Bit(0) == bit(a, 0) && s.Bit(1) == bit(a, 1) && s.Bit(2) == bit(a, 2) && s.Bit(3) == bit(a, 3), "the first bits are decoded")
	Assert(s.Bit(4) == bit(a, 4) && s.Bit(5) == bit(a, 5) && s.Bit(6) == bit(a, 6) && s.Bit(7) == bit(a, 7), "the last bits are decoded")
	v = decodedOf(rest, 0x83, unused, a, b)
	s, ok = v.(*btypes.BitString)
	Assert(ok && s != nil && s.GetBitUsed() == 16-unused, "the length of two octets is decoded")
	Assert(s.Bit(0) == bit(a, 0) && s.Bit(3) == bit(a, 3) && s.Bit(7) == bit(a, 7) && s.Bit(8) == bit(b, 0) && s.Bit(12) == bit(b, 4) && s.Bit(15) == bit(b, 7), "the bits of two octets are decoded")
}

func W02_Date(y, m, day, dow byte, rest []byte) {
	x, ok := decodedOf(rest, 0xa4, y, m, day, dow).(btypes.Date)
	Assert(ok && x.Month == int(m) && x.Day == int(day) && int(x.DayOfWeek) == int(dow), "the date is decoded")
	if y == 255 {
		Assert(x.Year == btypes.UnspecifiedTime, "an unspecified year is decoded")
	} else {
		Assert(x.Year == 1900+int(y), "the year is decoded")
	}
}

// The special values of clause 20.2.12.
func W02_DateCodes(n int) {
	Assert(encoding.IsOddMonth(n) == (n == 13) && encoding.IsEvenMonth(n) == (n == 14), "odd and even months are 13 and 14")
	Assert(encoding.IsLastDayOfMonth(n) == (n == 32), "the last day of a month is 32")
	Assert(encoding.IsOddDayOfMonth(n) == (n == 33) && encoding.IsEvenDayOfMonth(n) == (n == 34), "odd and even days are 33 and 34")
}

func W02_Time(h, m, s, c byte, rest []byte) {
	x, ok := decodedOf(rest, 0xb4, h, m, s, c).(btypes.Time)
	Assert(ok && x.Hour == int(h) && x.Minute == int(m) && x.Second == int(s) && x.Millisecond == 10*int(c), "the time is decoded")
}

func refused(rest []byte, head ...byte) {
	d := encoding.NewDecoder(append(head, rest...))
	_, err := d.AppData()
	Assert(err != nil, "a value of an impossible length is reported")
}

func W02_WrongLength(n byte, rest []byte) {
	refused(rest, 0x20)
	refused(rest, 0x30)
	refused(rest, 0x90)
	refused(rest, 0x43)
	refused(rest, 0x54)
	refused(rest, 0x80)
	refused(rest, 0xa3)
	refused(rest, 0xb3)
	refused(rest, 0xc3)
	if n > 4 && n < 254 {
		refused(rest, 0x25, n)
		refused(rest, 0x35, n)
		refused(rest, 0x95, n)
		refused(rest, 0x45, n)
		refused(rest, 0xc5, n)
		if n != 8 {
			refused(rest, 0x55, n)
		}
		if n > 16 {
			refused(rest, 0x85, n)
		}
	}
}

func W02_UnknownType(n byte, rest []byte) {
	n &= 7
	refused(rest, 0xd0|n)
	refused(rest, 0xe0|n)
}

// The longest bit strings, and longer ones.
func W02_LongBits(unused, a, b byte, rest []byte) {
	unused &= 7
	v := decodedOf(rest, 0x85, 16, unused, a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, b)
	s, ok := v.(*btypes.BitString)
	Assert(ok && s != nil && s.GetBitUsed() == 120-unused, "the length of fifteen octets is decoded")
	Assert(s.Bit(0) == bit(a, 0) && s.Bit(7) == bit(a, 7) && s.Bit(112) == bit(b, 0) && s.Bit(119) == bit(b, 7) && !s.Bit(60), "the bits of fifteen octets are decoded")
	d := encoding.NewDecoder(append([]byte{0x85, 17, unused, a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, b}, rest...))
	_, err := d.AppData()
	Assert(err != nil, "a bit string that does not fit is reported")
}

// UCS-2 is decoded by golang.org/x/text, which is replaced by these functions.

var (
	bigEndian bool
	ucs2      string
	ucs2Err   error
)

func utf16(e unicode.Endianness, b unicode.BOMPolicy) textencoding.Encoding {
	bigEndian = e == unicode.BigEndian
	return utf16Of{}
}

type utf16Of struct{}

func (utf16Of) NewDecoder() *textencoding.Decoder { return &textencoding.Decoder{} }
func (utf16Of) NewEncoder() *textencoding.Encoder { return &textencoding.Encoder{} }

func decoderString(d *textencoding.Decoder, s string) (string, error) {
	ucs2 = s
	return "decoded", ucs2Err
}

func decoderBytes(d *textencoding.Decoder, b []byte) ([]byte, error) {
	ucs2 = string(b)
	return []byte("decoded"), ucs2Err
}

func W02_UCS2(a, b, c, e byte, rest []byte) {
	bigEndian, ucs2Err = false, nil
	text(decodedOf(rest, 0x75, 5, 4, a, b, c, e), []byte("decoded"))
	Assert(bigEndian, "the high octet comes first")
	Equal([]byte(ucs2), []byte{a, b, c, e}, "the octets of the text are decoded")
	ucs2Err = errors.New("no UCS-2")
	d := encoding.NewDecoder(append([]byte{0x75, 5, 4, a, b, c, e}, rest...))
	_, err := d.AppData()
	Assert(err != nil, "what is not UCS-2 is reported")
}
