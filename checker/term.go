package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Integer terms.
//
// An integer value is a mathematical integer in linear form: a constant plus
// integer multiples of atoms and of bit fields of atoms. Shifts, masks and
// concatenations are brought into this form through the bits of the value, so
// that different ways of writing the same layout get the same term.

// Atom is an unknown integer.
type Atom struct {
	id     int
	name   string
	w      int // number of bits; an unsigned atom is in [0, 2^w)
	signed bool
	lo, hi *big.Int
}

var atoms = map[string]*Atom{}
var atomList []*Atom

func mkAtom(name string, w int, signed bool) *Atom {
	if a, ok := atoms[name]; ok {
		return a
	}
	a := &Atom{id: len(atomList), name: name, w: w, signed: signed}
	if signed {
		a.lo = new(big.Int).Neg(pow2(w - 1))
		a.hi = new(big.Int).Sub(pow2(w-1), bigOne)
	} else {
		a.lo = bigZero
		a.hi = new(big.Int).Sub(pow2(w), bigOne)
	}
	atoms[name] = a
	atomList = append(atomList, a)
	return a
}

// mkAtomRange makes an atom with a smaller range than its width gives.
func mkAtomRange(name string, w int, signed bool, lo, hi *big.Int) *Atom {
	if a, ok := atoms[name]; ok {
		return a
	}
	a := mkAtom(name, w, signed)
	if lo != nil && lo.Cmp(a.lo) > 0 {
		a.lo = lo
	}
	if hi != nil && hi.Cmp(a.hi) < 0 {
		a.hi = hi
	}
	return a
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)
var bigTwo = big.NewInt(2)

var pow2cache = map[int]*big.Int{}

func pow2(n int) *big.Int {
	if p, ok := pow2cache[n]; ok {
		return p
	}
	p := new(big.Int).Lsh(bigOne, uint(n))
	pow2cache[n] = p
	return p
}

// LTerm is coef * atom, or coef * the bits lo..hi of the atom.
type LTerm struct {
	a      *Atom
	hi, lo int // hi < 0: the whole atom
	coef   *big.Int
}

// Lin is a linear form. It is immutable.
type Lin struct {
	c   *big.Int
	ts  []LTerm
	key string
	hk  string // key without the constant
}

func (l *Lin) String() string { return l.key }

func termKey(t LTerm) string {
	if t.hi < 0 {
		return t.a.name
	}
	return fmt.Sprintf("%s[%d:%d]", t.a.name, t.hi, t.lo)
}

func newLin(c *big.Int, ts []LTerm) *Lin {
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].a != ts[j].a {
			return ts[i].a.name < ts[j].a.name
		}
		return ts[i].lo < ts[j].lo
	})
	var sb strings.Builder
	for _, t := range ts {
		if t.coef.Cmp(bigOne) == 0 {
			sb.WriteString("+")
		} else {
			if t.coef.Sign() > 0 {
				sb.WriteString("+")
			}
			sb.WriteString(t.coef.String())
			sb.WriteString("*")
		}
		sb.WriteString(termKey(t))
	}
	l := &Lin{c: c, ts: ts, hk: sb.String()}
	if len(ts) == 0 {
		l.key = c.String()
	} else if c.Sign() != 0 {
		l.key = l.hk + fmt.Sprintf("%+d", c)
	} else {
		l.key = l.hk
	}
	return l
}

func linC(n int64) *Lin      { return newLin(big.NewInt(n), nil) }
func linBig(n *big.Int) *Lin { return newLin(n, nil) }
func linAtom(a *Atom) *Lin   { return newLin(bigZero, []LTerm{{a: a, hi: -1, coef: bigOne}}) }
func (l *Lin) isConst() bool { return len(l.ts) == 0 }
func (l *Lin) constIs(n int64) bool {
	return len(l.ts) == 0 && l.c.IsInt64() && l.c.Int64() == n
}

// intConst gives the value of a constant form.
func (l *Lin) intConst() (int, bool) {
	if len(l.ts) == 0 && l.c.IsInt64() {
		return int(l.c.Int64()), true
	}
	return 0, false
}

// bit coefficients of one atom
type bitCoefs struct {
	a *Atom
	v []*big.Int // nil: 0
}

func (b *bitCoefs) addTerm(t LTerm) {
	lo, hi := t.lo, t.hi
	if hi < 0 {
		lo, hi = 0, t.a.w-1
	}
	for j := lo; j <= hi; j++ {
		k := new(big.Int).Lsh(t.coef, uint(j-lo))
		if t.hi < 0 && t.a.signed && j == hi {
			k.Neg(k)
		}
		b.addBit(j, k)
	}
}

func (b *bitCoefs) addBit(j int, k *big.Int) {
	if b.v[j] == nil {
		b.v[j] = k
	} else {
		b.v[j] = new(big.Int).Add(b.v[j], k)
	}
	if b.v[j].Sign() == 0 {
		b.v[j] = nil
	}
}

// terms rebuilds the canonical terms from the coefficients of the bits.
func (b *bitCoefs) terms() []LTerm {
	w := b.a.w
	if b.v[0] != nil {
		whole := true
		for j := 0; j < w; j++ {
			k := new(big.Int).Lsh(b.v[0], uint(j))
			if b.a.signed && j == w-1 {
				k.Neg(k)
			}
			if b.v[j] == nil || b.v[j].Cmp(k) != 0 {
				whole = false
				break
			}
		}
		if whole {
			return []LTerm{{a: b.a, hi: -1, coef: b.v[0]}}
		}
	}
	var out []LTerm
	for j := 0; j < w; {
		if b.v[j] == nil {
			j++
			continue
		}
		k := j
		for k+1 < w && b.v[k+1] != nil && b.v[k+1].Cmp(new(big.Int).Lsh(b.v[k], 1)) == 0 {
			k++
		}
		out = append(out, LTerm{a: b.a, lo: j, hi: k, coef: b.v[j]})
		j = k + 1
	}
	return out
}

// buildLin sums constant and terms and brings the result into canonical form.
func buildLin(c *big.Int, ts []LTerm) *Lin {
	if len(ts) == 0 {
		return newLin(c, nil)
	}
	byAtom := map[*Atom][]LTerm{}
	var order []*Atom
	for _, t := range ts {
		if t.coef.Sign() == 0 {
			continue
		}
		if _, ok := byAtom[t.a]; !ok {
			order = append(order, t.a)
		}
		byAtom[t.a] = append(byAtom[t.a], t)
	}
	var out []LTerm
	for _, a := range order {
		l := byAtom[a]
		fields := false
		for _, t := range l {
			if t.hi >= 0 {
				fields = true
			}
		}
		if !fields {
			sum := new(big.Int)
			for _, t := range l {
				sum.Add(sum, t.coef)
			}
			if sum.Sign() != 0 {
				out = append(out, LTerm{a: a, hi: -1, coef: sum})
			}
			continue
		}
		if len(l) == 1 && !(l[0].lo == 0 && l[0].hi == a.w-1) {
			out = append(out, l[0])
			continue
		}
		b := &bitCoefs{a: a, v: make([]*big.Int, a.w)}
		for _, t := range l {
			b.addTerm(t)
		}
		out = append(out, b.terms()...)
	}
	return newLin(c, out)
}

func (l *Lin) add(m *Lin) *Lin {
	if len(m.ts) == 0 {
		if m.c.Sign() == 0 {
			return l
		}
		return newLin(new(big.Int).Add(l.c, m.c), l.ts)
	}
	if len(l.ts) == 0 {
		if l.c.Sign() == 0 {
			return m
		}
		return newLin(new(big.Int).Add(l.c, m.c), m.ts)
	}
	ts := make([]LTerm, 0, len(l.ts)+len(m.ts))
	ts = append(ts, l.ts...)
	ts = append(ts, m.ts...)
	return buildLin(new(big.Int).Add(l.c, m.c), ts)
}

func (l *Lin) addC(n int64) *Lin { return l.add(linC(n)) }

func (l *Lin) mul(k *big.Int) *Lin {
	if k.Sign() == 0 {
		return linC(0)
	}
	if k.Cmp(bigOne) == 0 {
		return l
	}
	ts := make([]LTerm, len(l.ts))
	for i, t := range l.ts {
		ts[i] = t
		ts[i].coef = new(big.Int).Mul(t.coef, k)
	}
	return newLin(new(big.Int).Mul(l.c, k), ts)
}

func (l *Lin) mulC(k int64) *Lin { return l.mul(big.NewInt(k)) }
func (l *Lin) neg() *Lin         { return l.mulC(-1) }
func (l *Lin) sub(m *Lin) *Lin   { return l.add(m.neg()) }

// noConst drops the constant.
func (l *Lin) noConst() *Lin {
	if l.c.Sign() == 0 {
		return l
	}
	return newLin(bigZero, l.ts)
}

// prim returns the primitive form p and k with l = k*p + c, with gcd 1 and a
// positive first coefficient.
func (l *Lin) prim() (*Lin, *big.Int) {
	if len(l.ts) == 0 {
		return l, bigOne
	}
	g := new(big.Int)
	for _, t := range l.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.coef))
	}
	if l.ts[0].coef.Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) == 0 {
		return l.noConst(), g
	}
	ts := make([]LTerm, len(l.ts))
	for i, t := range l.ts {
		ts[i] = t
		ts[i].coef = new(big.Int).Quo(t.coef, g)
	}
	return newLin(bigZero, ts), g
}

// Bit is one bit of a value.
type Bit struct {
	a   *Atom
	j   int
	neg bool
	one bool // constant (a == nil)
}

func isPow2(k *big.Int) int {
	if k.Sign() <= 0 {
		return -1
	}
	n := int(k.TrailingZeroBits())
	if k.BitLen() == n+1 {
		return n
	}
	return -1
}

// bitsOf gives the n low bits of the two's complement value, or nil.
func (l *Lin) bitsOf(n int) []Bit {
	bits := make([]Bit, n)
	m := pow2(n)
	c := new(big.Int).Mod(l.c, m)
	used := make([]bool, n)
	put := func(pos int, b Bit) bool {
		if pos >= n {
			return true
		}
		if used[pos] {
			return false
		}
		used[pos] = true
		bits[pos] = b
		return true
	}
	for _, t := range l.ts {
		k := new(big.Int).Mod(t.coef, m)
		if k.Sign() == 0 {
			continue
		}
		neg := false
		sh := isPow2(k)
		if sh < 0 {
			k.Sub(m, k)
			sh = isPow2(k)
			neg = true
		}
		if sh < 0 {
			return nil
		}
		lo, hi := t.lo, t.hi
		signed := false
		if hi < 0 {
			lo, hi = 0, t.a.w-1
			signed = t.a.signed
		}
		if neg {
			if signed {
				// -x = ^x + 1
				c.Add(c, pow2(sh))
			} else {
				// -x = ^x - (2^len - 1)
				d := new(big.Int).Sub(pow2(hi-lo+1), bigOne)
				c.Sub(c, d.Lsh(d, uint(sh)))
			}
			c.Mod(c, m)
		}
		for j := lo; j <= hi; j++ {
			if !put(sh+j-lo, Bit{a: t.a, j: j, neg: neg}) {
				return nil
			}
		}
		if signed {
			for p := sh + hi - lo + 1; p < n; p++ {
				if !put(p, Bit{a: t.a, j: hi, neg: neg}) {
					return nil
				}
			}
		}
	}
	c.Mod(c, m)
	for i := 0; i < n; i++ {
		if c.Bit(i) == 1 {
			if used[i] {
				return nil
			}
			bits[i] = Bit{one: true}
		}
	}
	return bits
}

// linFromBits is the value of the bits; the last one is the sign if signed.
func linFromBits(bits []Bit, signed bool) *Lin {
	c := new(big.Int)
	co := map[*Atom]*bitCoefs{}
	var order []*Atom
	for i, b := range bits {
		k := new(big.Int).Set(pow2(i))
		if signed && i == len(bits)-1 {
			k.Neg(k)
		}
		if b.a == nil {
			if b.one {
				c.Add(c, k)
			}
			continue
		}
		bc := co[b.a]
		if bc == nil {
			bc = &bitCoefs{a: b.a, v: make([]*big.Int, b.a.w)}
			co[b.a] = bc
			order = append(order, b.a)
		}
		if b.neg {
			c.Add(c, k)
			k.Neg(k)
		}
		bc.addBit(b.j, k)
	}
	var ts []LTerm
	for _, a := range order {
		ts = append(ts, co[a].terms()...)
	}
	return newLin(c, ts)
}

// interval of integers; nil bounds are infinite
type ivl struct{ lo, hi *big.Int }

func (i ivl) isConst() bool {
	return i.lo != nil && i.hi != nil && i.lo.Cmp(i.hi) == 0
}
func (i ivl) empty() bool {
	return i.lo != nil && i.hi != nil && i.lo.Cmp(i.hi) > 0
}
func (i ivl) String() string {
	s := func(b *big.Int) string {
		if b == nil {
			return "inf"
		}
		return b.String()
	}
	return "[" + s(i.lo) + "," + s(i.hi) + "]"
}
func (i ivl) meet(o ivl) ivl {
	r := i
	if o.lo != nil && (r.lo == nil || o.lo.Cmp(r.lo) > 0) {
		r.lo = o.lo
	}
	if o.hi != nil && (r.hi == nil || o.hi.Cmp(r.hi) < 0) {
		r.hi = o.hi
	}
	return r
}
func (i ivl) hull(o ivl) ivl {
	var r ivl
	if i.lo != nil && o.lo != nil {
		r.lo = i.lo
		if o.lo.Cmp(r.lo) < 0 {
			r.lo = o.lo
		}
	}
	if i.hi != nil && o.hi != nil {
		r.hi = i.hi
		if o.hi.Cmp(r.hi) > 0 {
			r.hi = o.hi
		}
	}
	return r
}
func (i ivl) add(o ivl) ivl {
	var r ivl
	if i.lo != nil && o.lo != nil {
		r.lo = new(big.Int).Add(i.lo, o.lo)
	}
	if i.hi != nil && o.hi != nil {
		r.hi = new(big.Int).Add(i.hi, o.hi)
	}
	return r
}
func (i ivl) scale(k *big.Int) ivl {
	if k.Sign() == 0 {
		return ivl{bigZero, bigZero}
	}
	lo, hi := i.lo, i.hi
	if k.Sign() < 0 {
		lo, hi = hi, lo
	}
	var r ivl
	if lo != nil {
		r.lo = new(big.Int).Mul(lo, k)
	}
	if hi != nil {
		r.hi = new(big.Int).Mul(hi, k)
	}
	return r
}
func (i ivl) within(o ivl) bool {
	return (o.lo == nil || i.lo != nil && i.lo.Cmp(o.lo) >= 0) && (o.hi == nil || i.hi != nil && i.hi.Cmp(o.hi) <= 0)
}
func ivlC(lo, hi int64) ivl { return ivl{big.NewInt(lo), big.NewInt(hi)} }
