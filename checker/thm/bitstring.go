package thm

import "github.com/NubeDev/bacnet/btypes"

// W17: bit strings keep exactly the bits that are put in.

func capacity(n int) int {
	switch {
	case n < 0:
		return 0
	case n > 15:
		return 15
	}
	return n
}

func W17_New(n int) {
	bs := btypes.NewBitString(n)
	Assert(len(bs.Value) == capacity(n), "a bit string has the room asked for, up to fifteen octets")
	Assert(bs.BitUsed == 0 && bs.GetBitUsed() == 0 && bs.BytesUsed() == 0, "a new bit string is empty")
	Assert(int(bs.BitsCapacity()) == 8*capacity(n), "its capacity is that of its octets")
}

// nibble is v, as a constant in each case.
func nibble(v uint8) uint8 {
	switch v & 15 {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	case 4:
		return 4
	case 5:
		return 5
	case 6:
		return 6
	case 7:
		return 7
	case 8:
		return 8
	case 9:
		return 9
	case 10:
		return 10
	case 11:
		return 11
	case 12:
		return 12
	case 13:
		return 13
	case 14:
		return 14
	}
	return 15
}

// two is a bit string of two octets, of which used bits are in use.
func two(a, b byte, used uint8) *btypes.BitString {
	bs := btypes.NewBitString(2)
	Assert(bs.SetByte(0, a) && bs.SetByte(1, b), "octets within the capacity are set")
	Assert(bs.SetBitsUsed(2, 16-used), "the number of bits is set")
	return bs
}

func W17_Bits(a, b byte, used uint8) {
	n := nibble(used)
	bs := two(a, b, n)
	Assert(bs.GetBitUsed() == n, "the number of bits is kept")
	Assert(bs.BytesUsed() == (n+7)/8, "the number of octets in use")
	Assert(bs.Byte(0) == a && bs.Byte(1) == b, "the octets are kept")
}

// One bit is different from all the others.
func W17_Values(at, used uint8, v bool) {
	n, k := nibble(used), nibble(at)
	a, b := byte(0), byte(0)
	if k < 8 {
		a = 1 << k
	} else {
		b = 1 << (k - 8)
	}
	if v {
		a, b = ^a, ^b
	}
	bs := two(a, b, n)
	l := bs.GetValue()
	Assert(len(l) == int(n), "there is one value per bit")
	for i := range l {
		Assert(l[i] == ((i == int(k)) != v), "bit n of octet n/8 is bit n%8")
		Assert(bs.Bit(uint8(i)) == l[i], "one bit is as all of them")
	}
}

func W17_SetBit(a, b byte, i, used uint8, v bool) {
	used &= 15
	n := nibble(i)
	bs := two(a, b, used)
	bs.SetBit(n, v)
	x, y := a, b
	m := byte(1) << (n % 8)
	if n < 8 {
		if x &^= m; v {
			x |= m
		}
	} else {
		if y &^= m; v {
			y |= m
		}
	}
	Equal(bs.Value, []byte{x, y}, "one bit is set, the others are kept")
	if used > n {
		Assert(bs.BitUsed == used, "the bits in use stay in use")
	} else {
		Assert(bs.BitUsed == n+1, "the bit is in use")
	}
	Assert(bs.Bit(n) == v, "the bit is read as it was set")
}

// What does not fit changes nothing.
func W17_Outside(a, b byte, i, index, used, octets, unused uint8, v bool) {
	used &= 15
	bs := two(a, b, used)
	if i >= 16 {
		bs.SetBit(i, v)
		Assert(!bs.Bit(i), "there is no bit outside")
	}
	if index >= 2 {
		Assert(!bs.SetByte(index, 1), "an octet outside is rejected")
		Assert(bs.Byte(index) == 0, "there is no octet outside")
	}
	if octets > 2 || int(unused) > 8*int(octets) {
		Assert(!bs.SetBitsUsed(octets, unused), "more bits than there are, are rejected")
	}
	Equal(bs.Value, []byte{a, b}, "the octets are kept")
	Assert(bs.BitUsed == used, "the number of bits is kept")
}
