package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Facts is what is known in one partition: intervals of linear forms, the set
// of values of small atoms, and decisions about opaque conditions.
type Facts struct {
	iv   map[string]ivEntry
	ne   map[string][]*big.Int
	sets map[*Atom]*[4]uint64
	b    map[string]bool
	dyn  map[string]*dynFact
	idx  map[*Atom][]ivEntry // entries with several terms; nil: not made yet
}

type ivEntry struct {
	l  *Lin
	iv ivl
}

// dynFact is what is known about the dynamic type of an unknown interface value.
type dynFact struct {
	is  types.Type
	not []types.Type
}

func newFacts() *Facts {
	return &Facts{iv: map[string]ivEntry{}, ne: map[string][]*big.Int{}, sets: map[*Atom]*[4]uint64{}, b: map[string]bool{},
		dyn: map[string]*dynFact{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{iv: make(map[string]ivEntry, len(f.iv)), ne: make(map[string][]*big.Int, len(f.ne)),
		sets: make(map[*Atom]*[4]uint64, len(f.sets)), b: make(map[string]bool, len(f.b)), dyn: make(map[string]*dynFact, len(f.dyn))}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	for k, v := range f.sets {
		g.sets[k] = v
	}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.dyn {
		g.dyn[k] = v
	}
	return g
}

func (f *Facts) String() string {
	var out []string
	for _, e := range f.iv {
		out = append(out, e.l.String()+" in "+e.iv.String())
	}
	for k, v := range f.ne {
		out = append(out, fmt.Sprint(k, " not in ", v))
	}
	for a, s := range f.sets {
		out = append(out, a.name+" in "+setString(s))
	}
	for k, v := range f.b {
		if v {
			out = append(out, k)
		} else {
			out = append(out, "!"+k)
		}
	}
	for k, d := range f.dyn {
		if d.is != nil {
			out = append(out, k+" is "+shortType(d.is))
		} else {
			for _, t := range d.not {
				out = append(out, k+" is not "+shortType(t))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func setString(s *[4]uint64) string {
	var sb strings.Builder
	sb.WriteString("{")
	first := true
	for v := 0; v < 256; v++ {
		if s[v/64]>>(uint(v)%64)&1 == 0 {
			continue
		}
		e := v
		for e < 255 && s[(e+1)/64]>>(uint(e+1)%64)&1 == 1 {
			e++
		}
		if !first {
			sb.WriteString(",")
		}
		first = false
		if e > v {
			fmt.Fprintf(&sb, "%#x-%#x", v, e)
		} else {
			fmt.Fprintf(&sb, "%#x", v)
		}
		v = e
	}
	return sb.String() + "}"
}

func smallAtom(a *Atom) bool { return a.w <= 8 && !a.signed }

func (f *Facts) set(a *Atom) *[4]uint64 {
	if s, ok := f.sets[a]; ok {
		return s
	}
	s := new([4]uint64)
	lo, hi := int(a.lo.Int64()), int(a.hi.Int64())
	for v := lo; v <= hi; v++ {
		s[v/64] |= 1 << (uint(v) % 64)
	}
	return s
}

// oneSmall says if all terms are about one small atom.
func oneSmall(l *Lin) *Atom {
	if len(l.ts) == 0 || !smallAtom(l.ts[0].a) {
		return nil
	}
	for _, t := range l.ts[1:] {
		if t.a != l.ts[0].a {
			return nil
		}
	}
	return l.ts[0].a
}

// byteSet is the set of the possible values of something with at most 8 bits,
// or nil.
func (f *Facts) byteSet(l *Lin) *[4]uint64 {
	l = f.reduce(l)
	out := new([4]uint64)
	if k, ok := l.intConst(); ok {
		if k < 0 || k > 255 {
			return nil
		}
		out[k/64] |= 1 << (uint(k) % 64)
		return out
	}
	a := oneSmall(l)
	if a == nil || !l.c.IsInt64() {
		return nil
	}
	s := f.set(a)
	for v := 0; v < 256; v++ {
		if s[v/64]>>(uint(v)%64)&1 == 1 {
			x := evalSmall(l, v)
			if x < 0 || x > 255 {
				return nil
			}
			out[x/64] |= 1 << (uint(x) % 64)
		}
	}
	return out
}

// setByte restricts an atom to the values in the set.
func (f *Facts) setByte(l *Lin, s *[4]uint64) {
	if s == nil || len(l.ts) != 1 || !smallAtom(l.ts[0].a) || l.ts[0].hi >= 0 || l.c.Sign() != 0 || !l.ts[0].coef.IsInt64() || l.ts[0].coef.Int64() != 1 {
		return
	}
	n := *s
	for i, x := range f.set(l.ts[0].a) {
		n[i] &= x
	}
	if n != *f.set(l.ts[0].a) {
		f.sets[l.ts[0].a] = &n
	}
}

func evalSmall(l *Lin, v int) int64 {
	r := l.c.Int64()
	for _, t := range l.ts {
		x := v
		if t.hi >= 0 {
			x = (v >> uint(t.lo)) & (1<<uint(t.hi-t.lo+1) - 1)
		}
		r += t.coef.Int64() * int64(x)
	}
	return r
}

// atomIvl is the range of a whole atom.
func (f *Facts) atomIvl(a *Atom) ivl {
	if smallAtom(a) {
		if s, ok := f.sets[a]; ok {
			lo, hi := -1, -1
			for v := 0; v < 256; v++ {
				if s[v/64]>>(uint(v)%64)&1 == 1 {
					if lo < 0 {
						lo = v
					}
					hi = v
				}
			}
			return ivlC(int64(lo), int64(hi))
		}
		return ivl{a.lo, a.hi}
	}
	r := ivl{a.lo, a.hi}
	if e, ok := f.iv["+"+a.name]; ok {
		r = r.meet(e.iv)
	}
	return r
}

// knownBits gives the bits of the atom that have only one possible value.
func (f *Facts) knownBits(a *Atom) (known, val *big.Int) {
	known, val = new(big.Int), new(big.Int)
	if smallAtom(a) {
		s, ok := f.sets[a]
		if !ok && a.lo.Sign() == 0 && a.hi.BitLen() == a.w {
			return
		}
		if !ok {
			s = f.set(a)
		}
		and, or := 255, 0
		for v := 0; v < 256; v++ {
			if s[v/64]>>(uint(v)%64)&1 == 1 {
				and &= v
				or |= v
			}
		}
		m := 1<<uint(a.w) - 1
		known.SetInt64(int64((and | ^or) & m))
		val.SetInt64(int64(and & m))
		return
	}
	iv := f.atomIvl(a)
	if iv.lo != nil && iv.hi != nil {
		lo, hi := iv.lo, iv.hi
		if a.signed && lo.Sign() < 0 && hi.Sign() < 0 {
			lo = new(big.Int).Add(lo, pow2(a.w))
			hi = new(big.Int).Add(hi, pow2(a.w))
		}
		if lo.Sign() >= 0 && hi.Sign() >= 0 {
			for j := a.w - 1; j >= 0; j-- {
				if lo.Bit(j) != hi.Bit(j) {
					break
				}
				known.SetBit(known, j, 1)
				val.SetBit(val, j, lo.Bit(j))
			}
		}
	}
	for _, e := range f.iv {
		if len(e.l.ts) != 1 || e.l.ts[0].a != a || e.l.ts[0].hi < 0 {
			continue
		}
		t := e.l.ts[0]
		x := e.iv.meet(ivl{bigZero, new(big.Int).Sub(pow2(t.hi-t.lo+1), bigOne)})
		for j := t.hi - t.lo; j >= 0; j-- {
			if x.lo.Bit(j) != x.hi.Bit(j) {
				break
			}
			known.SetBit(known, j+t.lo, 1)
			val.SetBit(val, j+t.lo, x.lo.Bit(j))
		}
	}
	return
}

// reduce replaces what is known by its value.
func (f *Facts) reduce(l *Lin) *Lin {
	if len(l.ts) == 0 {
		return l
	}
	type grp struct {
		a      *Atom
		ts     []LTerm
		fields bool
	}
	var gs []*grp
	for _, t := range l.ts {
		if len(gs) > 0 && gs[len(gs)-1].a == t.a {
			g := gs[len(gs)-1]
			g.ts = append(g.ts, t)
			g.fields = g.fields || t.hi >= 0
			continue
		}
		gs = append(gs, &grp{a: t.a, ts: []LTerm{t}, fields: t.hi >= 0})
	}
	c := new(big.Int).Set(l.c)
	var out []LTerm
	changed := false
	for _, g := range gs {
		if !g.fields {
			iv := f.atomIvl(g.a)
			if iv.isConst() {
				c.Add(c, new(big.Int).Mul(iv.lo, g.ts[0].coef))
				changed = true
			} else {
				out = append(out, g.ts...)
			}
			continue
		}
		known, val := f.knownBits(g.a)
		if known.Sign() == 0 {
			out = append(out, g.ts...)
			continue
		}
		b := &bitCoefs{a: g.a, v: make([]*big.Int, g.a.w)}
		for _, t := range g.ts {
			b.addTerm(t)
		}
		// do the unknown bits look like a multiple of the whole atom?
		var k *big.Int
		whole := true
		any := false
		for j := 0; j < g.a.w && whole; j++ {
			if known.Bit(j) == 1 {
				continue
			}
			any = true
			v := b.v[j]
			if v == nil {
				whole = false
				break
			}
			if g.a.signed && j == g.a.w-1 {
				v = new(big.Int).Neg(v)
			}
			q, r := new(big.Int).QuoRem(v, pow2(j), new(big.Int))
			if r.Sign() != 0 || k != nil && k.Cmp(q) != 0 {
				whole = false
				break
			}
			k = q
		}
		changed = true
		for j := 0; j < g.a.w; j++ {
			if known.Bit(j) == 0 {
				continue
			}
			if b.v[j] != nil && val.Bit(j) == 1 {
				c.Add(c, b.v[j])
			}
			if any && whole && val.Bit(j) == 1 {
				d := new(big.Int).Mul(k, pow2(j))
				if g.a.signed && j == g.a.w-1 {
					d.Neg(d)
				}
				c.Sub(c, d)
			}
			b.v[j] = nil
		}
		if !any {
			continue
		}
		if whole {
			out = append(out, LTerm{a: g.a, hi: -1, coef: k})
			continue
		}
		out = append(out, b.terms()...)
	}
	if !changed {
		return l
	}
	return newLin(c, out)
}

// related gives the facts about more than one term that have the atom.
func (f *Facts) related(a *Atom) []ivEntry {
	if f.idx == nil {
		f.idx = map[*Atom][]ivEntry{}
		for _, e := range sortedMap(f.iv) {
			if len(e.l.ts) < 2 {
				continue
			}
			var last *Atom
			for _, t := range e.l.ts {
				if t.a != last {
					f.idx[t.a] = append(f.idx[t.a], e)
					last = t.a
				}
			}
		}
	}
	return f.idx[a]
}

func (f *Facts) termIvl(t LTerm) ivl {
	if t.hi < 0 {
		return f.atomIvl(t.a)
	}
	max := new(big.Int).Sub(pow2(t.hi-t.lo+1), bigOne)
	r := ivl{bigZero, max}
	if smallAtom(t.a) {
		if s, ok := f.sets[t.a]; ok {
			lo, hi := -1, -1
			for v := 0; v < 256; v++ {
				if s[v/64]>>(uint(v)%64)&1 == 1 {
					x := (v >> uint(t.lo)) & (1<<uint(t.hi-t.lo+1) - 1)
					if lo < 0 || x < lo {
						lo = x
					}
					if x > hi {
						hi = x
					}
				}
			}
			return ivlC(int64(lo), int64(hi))
		}
		return r
	}
	if e, ok := f.iv["+"+termKey(t)]; ok {
		r = r.meet(e.iv)
	}
	a := f.atomIvl(t.a)
	if off, ok := topOffset(a, t); ok {
		r = r.meet(ivl{new(big.Int).Rsh(new(big.Int).Sub(a.lo, off), uint(t.lo)), new(big.Int).Rsh(new(big.Int).Sub(a.hi, off), uint(t.lo))})
	}
	return r
}

// topOffset says if nothing is unknown of the atom above these bits, and what
// the bits above amount to.
func topOffset(a ivl, t LTerm) (*big.Int, bool) {
	if a.lo == nil || a.hi == nil {
		return nil, false
	}
	if a.lo.Sign() >= 0 && a.hi.BitLen() <= t.hi+1 {
		return bigZero, true
	}
	if w := t.a.w; t.a.signed && a.hi.Sign() < 0 && t.hi == w-2 && w > 1 {
		return new(big.Int).Neg(pow2(w - 1)), true
	}
	return nil, false
}

var relDepth = 3

// rng is the range of the value of l.
func (f *Facts) rng(l *Lin) ivl { return f.rngd(f.reduce(l), relDepth) }

func (f *Facts) rngd(l *Lin, depth int) ivl {
	if len(l.ts) == 0 {
		return ivl{l.c, l.c}
	}
	if a := oneSmall(l); a != nil {
		s := f.set(a)
		var lo, hi int64
		any := false
		for v := 0; v < 256; v++ {
			if s[v/64]>>(uint(v)%64)&1 == 1 {
				x := evalSmall(l, v)
				if !any || x < lo {
					lo = x
				}
				if !any || x > hi {
					hi = x
				}
				any = true
			}
		}
		return ivlC(lo, hi)
	}
	r := ivl{l.c, l.c}
	for _, t := range l.ts {
		r = r.add(f.termIvl(t).scale(t.coef))
	}
	p, k := l.prim()
	if e, ok := f.iv[p.hk]; ok {
		r = r.meet(e.iv.scale(k).add(ivl{l.c, l.c}))
	}
	if depth > 0 {
		max := len(l.ts)
		if depth > 1 && max < 4 {
			max++
		}
		for i := range l.ts {
			lt := &l.ts[i]
			for _, e := range f.related(lt.a) {
				for _, et := range e.l.ts {
					if lt.a != et.a || lt.hi != et.hi || lt.lo != et.lo {
						continue
					}
					var q *big.Int
					if et.coef.Cmp(bigOne) == 0 {
						q = lt.coef
					} else {
						var rem *big.Int
						q, rem = new(big.Int).QuoRem(lt.coef, et.coef, new(big.Int))
						if rem.Sign() != 0 {
							continue
						}
					}
					// does the entry bound anything in this direction?
					rest := l.sub(e.l.mul(q))
					if len(rest.ts) > max {
						continue
					}
					r = r.meet(f.rngd(rest, depth-1).add(e.iv.scale(q)))
				}
			}
		}
	}
	return r
}

type cmpOp int

const (
	opEQ cmpOp = iota
	opNE
	opLE
)

// decideCmp decides l op 0: 1 true, 0 false, -1 unknown.
func (f *Facts) decideCmp(l *Lin, op cmpOp) int {
	l = f.reduce(l)
	if op == opEQ || op == opNE {
		r := f.decideEq(l)
		if r < 0 || op == opEQ {
			return r
		}
		return 1 - r
	}
	r := f.rngd(l, relDepth)
	if r.hi != nil && r.hi.Sign() <= 0 {
		return 1
	}
	if r.lo != nil && r.lo.Sign() > 0 {
		return 0
	}
	return -1
}

func (f *Facts) decideEq(l *Lin) int {
	if len(l.ts) == 0 {
		if l.c.Sign() == 0 {
			return 1
		}
		return 0
	}
	if a := oneSmall(l); a != nil {
		s := f.set(a)
		yes, no := false, false
		for v := 0; v < 256; v++ {
			if s[v/64]>>(uint(v)%64)&1 == 1 {
				if evalSmall(l, v) == 0 {
					yes = true
				} else {
					no = true
				}
			}
		}
		switch {
		case yes && !no:
			return 1
		case no && !yes:
			return 0
		}
		return -1
	}
	r := f.rngd(l, relDepth)
	if r.isConst() && r.lo.Sign() == 0 {
		return 1
	}
	if r.lo != nil && r.lo.Sign() > 0 || r.hi != nil && r.hi.Sign() < 0 {
		return 0
	}
	p, k := l.prim()
	q, rem := new(big.Int).QuoRem(new(big.Int).Neg(l.c), k, new(big.Int))
	if rem.Sign() != 0 {
		return 0
	}
	for _, x := range f.ne[p.hk] {
		if x.Cmp(q) == 0 {
			return 0
		}
	}
	return -1
}

func (f *Facts) equal(a, b *Lin) bool {
	if a.key == b.key {
		return true
	}
	return f.decideCmp(a.sub(b), opEQ) == 1
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, bigOne)
	}
	return q
}

// assumeCmp adds l op 0; false if that can not be.
func (f *Facts) assumeCmp(l *Lin, op cmpOp) bool {
	l = f.reduce(l)
	switch f.decideCmp(l, op) {
	case 0:
		return false
	case 1:
		return true
	}
	if a := oneSmall(l); a != nil {
		s := *f.set(a)
		for v := 0; v < 256; v++ {
			if s[v/64]>>(uint(v)%64)&1 == 0 {
				continue
			}
			x := evalSmall(l, v)
			ok := false
			switch op {
			case opEQ:
				ok = x == 0
			case opNE:
				ok = x != 0
			case opLE:
				ok = x <= 0
			}
			if !ok {
				s[v/64] &^= 1 << (uint(v) % 64)
			}
		}
		if s == [4]uint64{} {
			return false
		}
		f.sets[a] = &s
		return true
	}
	p, k := l.prim()
	mc := new(big.Int).Neg(l.c)
	cur, ok := f.iv[p.hk]
	if !ok {
		cur = ivEntry{l: p}
	}
	switch op {
	case opEQ:
		q, rem := new(big.Int).QuoRem(mc, k, new(big.Int))
		if rem.Sign() != 0 {
			return false
		}
		cur.iv = cur.iv.meet(ivl{q, q})
	case opNE:
		q, rem := new(big.Int).QuoRem(mc, k, new(big.Int))
		if rem.Sign() != 0 {
			return true
		}
		f.ne[p.hk] = append(append([]*big.Int{}, f.ne[p.hk]...), q)
		r := f.rngd(p, relDepth)
		cur.iv = cur.iv.meet(r)
	case opLE:
		if k.Sign() > 0 {
			cur.iv = cur.iv.meet(ivl{nil, floorDiv(mc, k)})
		} else {
			// k p + c <= 0, k < 0: p >= ceil(c / -k)
			nk := new(big.Int).Neg(k)
			q := floorDiv(new(big.Int).Add(l.c, new(big.Int).Sub(nk, bigOne)), nk)
			cur.iv = cur.iv.meet(ivl{q, nil})
		}
	}
	// move bounds away from excluded values
	for moved := true; moved; {
		moved = false
		for _, x := range f.ne[p.hk] {
			if cur.iv.lo != nil && cur.iv.lo.Cmp(x) == 0 {
				cur.iv.lo = new(big.Int).Add(x, bigOne)
				moved = true
			}
			if cur.iv.hi != nil && cur.iv.hi.Cmp(x) == 0 {
				cur.iv.hi = new(big.Int).Sub(x, bigOne)
				moved = true
			}
		}
	}
	if cur.iv.empty() {
		return false
	}
	if cur.iv.lo == nil && cur.iv.hi == nil {
		return true
	}
	f.iv[p.hk] = cur
	f.idx = nil
	r := f.rngd(p, relDepth)
	if r.empty() {
		return false
	}
	return f.liftTop(p, r)
}

// liftTop restates what is known about the topmost bits of an atom as a range
// of the atom.
func (f *Facts) liftTop(p *Lin, r ivl) bool {
	if len(p.ts) != 1 || p.ts[0].hi < 0 || p.ts[0].coef.Cmp(bigOne) != 0 || smallAtom(p.ts[0].a) {
		return true
	}
	t := p.ts[0]
	a := f.atomIvl(t.a)
	off, ok := topOffset(a, t)
	if !ok || r.lo == nil || r.hi == nil {
		return true
	}
	n := ivl{new(big.Int).Lsh(r.lo, uint(t.lo)), new(big.Int).Sub(new(big.Int).Lsh(new(big.Int).Add(r.hi, bigOne), uint(t.lo)), bigOne)}
	n.lo.Add(n.lo, off)
	n.hi.Add(n.hi, off)
	if n.lo.Cmp(a.lo) <= 0 && n.hi.Cmp(a.hi) >= 0 {
		return true
	}
	return f.assumeCmp(linBig(n.lo).sub(linAtom(t.a)), opLE) && f.assumeCmp(linAtom(t.a).sub(linBig(n.hi)), opLE)
}

// consistent looks for a contradiction between the facts.
func (f *Facts) consistent() bool {
	for _, e := range f.iv {
		r := f.rng(e.l)
		if r.meet(e.iv).empty() || r.empty() {
			return false
		}
		for _, x := range f.ne[e.l.hk] {
			m := r.meet(e.iv)
			if m.isConst() && m.lo.Cmp(x) == 0 {
				return false
			}
		}
	}
	for _, s := range f.sets {
		if *s == [4]uint64{} {
			return false
		}
	}
	return true
}

// conj adds all facts of g; false if that is a contradiction.
func (f *Facts) conj(g *Facts) bool {
	for k, v := range g.b {
		if w, ok := f.b[k]; ok && w != v {
			return false
		}
		f.b[k] = v
	}
	for a, s := range g.sets {
		t := *f.set(a)
		for i := range t {
			t[i] &= s[i]
		}
		if t == [4]uint64{} {
			return false
		}
		f.sets[a] = &t
	}
	for _, k := range sortedKeys(g.dyn) {
		d := g.dyn[k]
		e := f.dyn[k]
		if e == nil {
			f.dyn[k] = d
			continue
		}
		if d.is != nil {
			if !f.assumeDyn(k, d.is, true) {
				return false
			}
		}
		for _, t := range d.not {
			if !f.assumeDyn(k, t, false) {
				return false
			}
		}
	}
	for k, v := range g.ne {
		f.ne[k] = append(append([]*big.Int{}, f.ne[k]...), v...)
	}
	for _, e := range sortedMap(g.iv) {
		l := e.l
		if e.iv.isConst() {
			if !f.assumeCmp(l.sub(linBig(e.iv.lo)), opEQ) {
				return false
			}
			continue
		}
		if e.iv.hi != nil && !f.assumeCmp(l.sub(linBig(e.iv.hi)), opLE) {
			return false
		}
		if e.iv.lo != nil && !f.assumeCmp(linBig(e.iv.lo).sub(l), opLE) {
			return false
		}
	}
	return f.consistent()
}

func (f *Facts) assumeDyn(name string, t types.Type, is bool) bool {
	d := f.dyn[name]
	n := &dynFact{}
	if d != nil {
		*n = *d
	}
	if is {
		if n.is != nil {
			return types.Identical(n.is, t)
		}
		for _, x := range n.not {
			if types.Identical(x, t) {
				return false
			}
		}
		n.is = t
		n.not = nil
	} else {
		if n.is != nil {
			return !types.Identical(n.is, t)
		}
		n.not = append(append([]types.Type{}, n.not...), t)
	}
	f.dyn[name] = n
	return true
}

// decideDyn: 1 the type is t, 0 it is not, -1 unknown
func (f *Facts) decideDyn(name string, t types.Type) int {
	d := f.dyn[name]
	if d == nil {
		return -1
	}
	if d.is != nil {
		if types.Identical(d.is, t) {
			return 1
		}
		return 0
	}
	for _, x := range d.not {
		if types.Identical(x, t) {
			return 0
		}
	}
	return -1
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedMap[V any](m map[string]V) []V {
	out := make([]V, 0, len(m))
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}

// sortedObjs gives the objects in the order of their names.
func sortedObjs[V any](m map[*Obj]V) []*Obj {
	os := make([]*Obj, 0, len(m))
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].name < os[j].name })
	return os
}
