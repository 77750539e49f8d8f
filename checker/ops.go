package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- operators

func (fr *frame) binop(bs *bstate, in *ssa.BinOp) []*bstate {
	st := bs.st
	x, y := fr.val(bs, in.X), fr.val(bs, in.Y)
	switch in.Op {
	case token.EQL:
		return fr.set(bs, in, st.equalCond(x, y))
	case token.NEQ:
		return fr.set(bs, in, st.equalCond(x, y).not())
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		a, ok1 := x.(*StrV)
		c, ok2 := y.(*StrV)
		if in.Op == token.ADD {
			if ok1 && ok2 {
				return fr.set(bs, in, concatStr(a, c))
			}
			return fr.set(bs, in, symValue(fresh("str"), in.Type()))
		}
		return fr.set(bs, in, boolAtom("strcmp("+vk(x)+in.Op.String()+vk(y)+")"))
	}
	w, signed, isInt := intInfo(in.X.Type())
	if !isInt {
		// floating point and complex numbers
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fr.set(bs, in, boolAtom("fcmp("+vk(x)+in.Op.String()+vk(y)+")"))
		}
		fw := 64
		if f, ok := x.(*FloatV); ok {
			fw = f.w
		}
		return fr.set(bs, in, &FloatV{name: "(" + vk(x) + in.Op.String() + vk(y) + ")", w: fw})
	}
	a, b := fr.intVal(bs, in.X), fr.intVal(bs, in.Y)
	f := st.f
	switch in.Op {
	case token.LSS:
		return fr.set(bs, in, boolCmp(a.sub(b).addC(1), opLE))
	case token.LEQ:
		return fr.set(bs, in, boolCmp(a.sub(b), opLE))
	case token.GTR:
		return fr.set(bs, in, boolCmp(b.sub(a).addC(1), opLE))
	case token.GEQ:
		return fr.set(bs, in, boolCmp(b.sub(a), opLE))
	case token.ADD:
		return fr.set(bs, in, st.wrap(a.add(b), w, signed))
	case token.SUB:
		return fr.set(bs, in, st.wrap(a.sub(b), w, signed))
	case token.MUL:
		a, b = f.reduce(a), f.reduce(b)
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			return fr.set(bs, in, st.wrap(a.mul(b.c), w, signed))
		}
		return fr.set(bs, in, fr.product(st, a, b, w, signed))
	case token.SHL, token.SHR:
		yw, ys, _ := intInfo(in.Y.Type())
		_ = yw
		if ys {
			ok := f.decideCmp(b.neg(), opLE) == 1
			fr.e.oblige(st, "shift", in, ok, "shift by a negative number")
			if !ok && !f.assumeCmp(b.neg(), opLE) {
				return nil
			}
		}
		b = f.reduce(b)
		if n, ok := b.intConst(); ok {
			return fr.set(bs, in, st.shift(in.Op, a, n, w, signed))
		}
		if b.isConst() {
			return fr.set(bs, in, st.shift(in.Op, a, 1000, w, signed))
		}
		return fr.partition(bs, b, 0, 66, func(bs *bstate, n int) {
			bs.regs[in] = bs.st.shift(in.Op, a, n, w, signed)
		}, func(bs *bstate) {
			bs.regs[in] = linAtom(mkAtom(fmt.Sprintf("shift%s(%s,%s)", in.Op, a.key, b.key), w, signed))
		})
	case token.QUO, token.REM:
		nz := f.decideCmp(b, opNE) == 1
		fr.e.oblige(st, "div", in, nz, "division by zero")
		if !nz && !f.assumeCmp(b, opNE) {
			return nil
		}
		b = f.reduce(b)
		if b.isConst() {
			return fr.set(bs, in, st.divide(in.Op, a, b.c, w, signed))
		}
		return fr.set(bs, in, linAtom(mkAtom(fmt.Sprintf("div%s(%s,%s)", in.Op, a.key, b.key), w, signed)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return fr.set(bs, in, st.bitop(in.Op, a, b, w, signed))
	}
	panic(undecided{"operator " + in.Op.String()})
}

func concatStr(a, c *StrV) *StrV {
	if a.lit != nil && *a.lit == "" {
		return c
	}
	if c.lit != nil && *c.lit == "" {
		return a
	}
	if a.lit != nil && c.lit != nil {
		return strLit(*a.lit + *c.lit)
	}
	var ps []*StrV
	for _, p := range append(a.pieces(), c.pieces()...) {
		if n := len(ps); n > 0 && ps[n-1].lit != nil && p.lit != nil {
			ps[n-1] = strLit(*ps[n-1].lit + *p.lit)
			continue
		}
		ps = append(ps, p)
	}
	var ks []string
	for _, p := range ps {
		ks = append(ks, p.vkey())
	}
	return &StrV{name: "(" + strings.Join(ks, "+") + ")", n: a.n.add(c.n), parts: ps}
}

// pieces are the texts that a text is a concatenation of.
func (v *StrV) pieces() []*StrV {
	if v.parts != nil {
		return append([]*StrV{}, v.parts...)
	}
	return []*StrV{v}
}

func (fr *frame) product(st *State, a, b *Lin, w int, signed bool) *Lin {
	p, q := a.key, b.key
	if p > q {
		p, q = q, p
	}
	name := "mul(" + p + "," + q + ")"
	x, y := st.f.rng(a), st.f.rng(b)
	if x.lo != nil && x.hi != nil && y.lo != nil && y.hi != nil {
		var lo, hi *big.Int
		for _, u := range []*big.Int{x.lo, x.hi} {
			for _, v := range []*big.Int{y.lo, y.hi} {
				m := new(big.Int).Mul(u, v)
				if lo == nil || m.Cmp(lo) < 0 {
					lo = m
				}
				if hi == nil || m.Cmp(hi) > 0 {
					hi = m
				}
			}
		}
		if (ivl{lo, hi}).within(typeIvl(w, signed)) {
			l := linAtom(mkAtom(name, w, signed))
			st.f.assumeCmp(l.sub(linBig(hi)), opLE)
			st.f.assumeCmp(linBig(lo).sub(l), opLE)
			return l
		}
	}
	return linAtom(mkAtom(name+fmt.Sprint("w", w, signed), w, signed))
}

// partition splits by the value of b if it has few values.
func (fr *frame) partition(bs *bstate, b *Lin, lo, hi int64, f func(*bstate, int), rest func(*bstate)) []*bstate {
	r := bs.st.f.rng(b)
	if r.lo == nil || r.hi == nil || r.lo.Cmp(big.NewInt(lo)) < 0 || new(big.Int).Sub(r.hi, r.lo).Cmp(big.NewInt(hi-lo)) > 0 {
		rest(bs)
		return one(bs)
	}
	var out []*bstate
	for v := r.lo.Int64(); v <= r.hi.Int64(); v++ {
		n := bs.fork()
		if n.st.f.assumeCmp(b.addC(-v), opEQ) {
			f(n, int(v))
			out = append(out, n)
		}
	}
	return out
}

// typeBits gives the w bits of a value of an integer type.
func (s *State) typeBits(l *Lin, w int) []Bit {
	if b := l.bitsOf(w); b != nil {
		return b
	}
	l = s.f.reduce(l)
	if b := l.bitsOf(w); b != nil {
		return b
	}
	return s.f.narrowBits(l, w)
}

func (f *Facts) narrowBits(l *Lin, w int) []Bit {
	if n := f.narrow(f.reduce(l)); n != nil {
		return n.bitsOf(w)
	}
	return nil
}

// narrow replaces values by their low bits where the others are known to be 0.
func (f *Facts) narrow(l *Lin) *Lin {
	ts := append([]LTerm{}, l.ts...)
	ch := false
	for i, t := range ts {
		if t.hi >= 0 {
			continue
		}
		iv := f.atomIvl(t.a)
		if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 || iv.hi.BitLen() >= t.a.w || iv.hi.Sign() == 0 {
			continue
		}
		ts[i].hi, ts[i].lo = iv.hi.BitLen()-1, 0
		ch = true
	}
	if !ch {
		return nil
	}
	return newLin(l.c, ts)
}

// valAtoms says which value an atom stands for.
var valAtoms = map[*Atom]*Lin{}

// canonVals names the bits of values independently of the type they were
// taken in: the low bits are the same in all.
func canonVals(f *Facts, l *Lin) *Lin {
	l = f.reduce(l)
	var ts []LTerm
	ch := false
	for _, t := range l.ts {
		if v, ok := valAtoms[t.a]; ok && (t.hi >= 0 || !t.a.signed && t.a.w < 64) {
			if t.hi < 0 {
				t.hi, t.lo = t.a.w-1, 0
			}
			t.a = mkAtom("val64("+v.key+")", 64, false)
			ch = true
		}
		ts = append(ts, t)
	}
	if !ch {
		return l
	}
	return newLin(l.c, ts)
}

// opaqueBits gives bits of an atom that stands for the value.
func (s *State) opaqueBits(l *Lin, w int, signed bool) []Bit {
	if b := s.typeBits(l, w); b != nil {
		return b
	}
	l = s.f.reduce(l)
	sg := "u"
	if signed {
		sg = "s"
	}
	a := mkAtom(fmt.Sprintf("val%s%d(%s)", sg, w, l.key), w, signed)
	valAtoms[a] = l
	r := s.f.rng(l)
	if r.lo != nil && r.within(typeIvl(w, signed)) {
		s.f.assumeCmp(linBig(r.lo).sub(linAtom(a)), opLE)
		s.f.assumeCmp(linAtom(a).sub(linBig(r.hi)), opLE)
	}
	s.f.assumeCmp(linAtom(a).sub(l), opEQ)
	return linAtom(a).bitsOf(w)
}

func (s *State) shift(op token.Token, a *Lin, n, w int, signed bool) *Lin {
	if op == token.SHL {
		if n >= w {
			return linC(0)
		}
		return s.wrap(a.mul(pow2(n)), w, signed)
	}
	if n == 0 {
		return a
	}
	if a.isConst() {
		return linBig(floorDiv(a.c, pow2(min(n, 200))))
	}
	r := s.f.rng(a)
	if n >= w {
		if r.lo != nil && r.lo.Sign() >= 0 {
			return linC(0)
		}
		n = w - 1
	}
	bits := s.opaqueBits(a, w, signed)
	return linFromBits(bits[n:], signed)
}

func (s *State) bitop(op token.Token, a, b *Lin, w int, signed bool) *Lin {
	a, b = s.f.reduce(a), s.f.reduce(b)
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.c, b.c)
		case token.OR:
			r.Or(a.c, b.c)
		case token.XOR:
			r.Xor(a.c, b.c)
		default:
			r.AndNot(a.c, b.c)
		}
		return s.wrap(linBig(r), w, signed)
	}
	x, y := s.opaqueBits(a, w, signed), s.opaqueBits(b, w, signed)
	out := make([]Bit, w)
	bad := false
	again := true
retry:
	for i := range out {
		p, q := x[i], y[i]
		if op == token.AND_NOT {
			q = notBit(q)
		}
		switch op {
		case token.AND, token.AND_NOT:
			switch {
			case p.a == nil:
				if p.one {
					out[i] = q
				}
			case q.a == nil:
				if q.one {
					out[i] = p
				}
			case p == q:
				out[i] = p
			case p == notBit(q):
			default:
				bad = true
			}
		case token.OR:
			switch {
			case p.a == nil:
				if p.one {
					out[i] = p
				} else {
					out[i] = q
				}
			case q.a == nil:
				if q.one {
					out[i] = q
				} else {
					out[i] = p
				}
			case p == q:
				out[i] = p
			case p == notBit(q):
				out[i] = Bit{one: true}
			default:
				bad = true
			}
		case token.XOR:
			switch {
			case p.a == nil:
				out[i] = q
				if p.one {
					out[i] = notBit(q)
				}
			case q.a == nil:
				out[i] = p
				if q.one {
					out[i] = notBit(p)
				}
			case p == q:
			case p == notBit(q):
				out[i] = Bit{one: true}
			default:
				bad = true
			}
		}
	}
	if !bad {
		return linFromBits(out, signed)
	}
	if again {
		again = false
		nx, ny := s.f.narrowBits(a, w), s.f.narrowBits(b, w)
		if nx != nil {
			x = nx
		}
		if ny != nil {
			y = ny
		}
		if nx != nil || ny != nil {
			bad = false
			out = make([]Bit, w)
			goto retry
		}
	}
	p, q := a.key, b.key
	if op != token.AND_NOT && p > q {
		p, q = q, p
	}
	l := linAtom(mkAtom(fmt.Sprintf("bit%s%d(%s,%s)", op, w, p, q), w, signed))
	if !signed && op == token.AND {
		s.f.assumeCmp(l.sub(a), opLE)
		s.f.assumeCmp(l.sub(b), opLE)
	}
	return l
}

func notBit(b Bit) Bit {
	if b.a == nil {
		return Bit{one: !b.one}
	}
	b.neg = !b.neg
	return b
}

func (s *State) divide(op token.Token, a *Lin, k *big.Int, w int, signed bool) *Lin {
	a = s.f.reduce(a)
	if a.isConst() {
		q, r := new(big.Int).QuoRem(a.c, k, new(big.Int))
		if op == token.QUO {
			return s.wrap(linBig(q), w, signed)
		}
		return linBig(r)
	}
	r := s.f.rng(a)
	nonneg := r.lo != nil && r.lo.Sign() >= 0
	if nonneg && k.Sign() > 0 {
		if n := isPow2(k); n >= 0 {
			if bits := s.typeBits(a, w); bits != nil {
				if op == token.QUO {
					return linFromBits(bits[n:], signed && n < w && bits[w-1].a != nil)
				}
				if n == 0 {
					return linC(0)
				}
				return linFromBits(bits[:n], false)
			}
		}
		if r.hi != nil && r.hi.Cmp(k) < 0 {
			if op == token.QUO {
				return linC(0)
			}
			return a
		}
		q := linAtom(mkAtomRange(fmt.Sprintf("quo(%s,%s)", a.key, k), 64, false, bigZero, nil))
		rem := a.sub(q.mul(k))
		// 0 <= a - k q < k
		s.f.assumeCmp(rem.neg(), opLE)
		s.f.assumeCmp(rem.sub(linBig(k)).addC(1), opLE)
		if r.hi != nil {
			s.f.assumeCmp(q.sub(linBig(floorDiv(r.hi, k))), opLE)
		}
		if op == token.QUO {
			return q
		}
		return rem
	}
	return linAtom(mkAtom(fmt.Sprintf("div%s(%s,%s)", op, a.key, k), w, signed))
}

// --- conversions

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	_, _ = fw, fs
	switch {
	case fi && ti:
		l, ok := v.(*Lin)
		if !ok {
			return symValue(fresh("conv"), to)
		}
		return st.wrap(l, tw, ts)
	case ti:
		if f, ok := v.(*FloatV); ok {
			return linAtom(mkAtom("trunc("+f.name+fmt.Sprintf(")%d%v", tw, ts), tw, ts))
		}
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		w := 64
		if tb.Kind() == types.Float32 {
			w = 32
		}
		switch x := v.(type) {
		case *FloatV:
			if x.w == w || w == 64 {
				return &FloatV{name: x.name, w: w}
			}
			// 32 -> 64 -> 32 gives the same number
			if strings.HasPrefix(x.name, "32:") {
				return &FloatV{name: x.name[3:], w: 32}
			}
			return &FloatV{name: "round32(" + x.name + ")", w: 32}
		case *Lin:
			return &FloatV{name: fmt.Sprintf("float%d(%s)", w, st.f.reduce(x).key), w: w}
		}
	}
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	if isStr(tb) {
		switch x := v.(type) {
		case *StrV:
			return x
		case *SliceV:
			cs := st.seg(x)
			if len(cs) == 1 && cs[0].v == nil && cs[0].arr != nil && strings.HasPrefix(cs[0].arr.base, "bytesof:") && cs[0].off.constIs(0) {
				if s, ok := strOfBytes[cs[0].arr.base]; ok && st.f.equal(s.n, cs[0].end) {
					return s
				}
			}
			return &StrV{name: "str(" + chunksKey(cs) + ")", n: x.n, src: &Chunk{arr: &ArrV{elem: types.Typ[types.Uint8], isCont: true, content: cs}, off: linC(0), end: x.n}}
		}
		return symValue("strconv("+vk(v)+")", to)
	}
	if isStr(fb) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s, _ := v.(*StrV)
			if s != nil {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return bytesOf(st, s)
				}
			}
			x := symValue("runes("+vk(v)+")", to).(*SliceV)
			x.nilName = ""
			if s != nil {
				st.f.assumeCmp(x.n.sub(s.n), opLE)
			}
			return x
		}
	}
	return v
}

var strOfBytes = map[string]*StrV{}

// bytesOf gives a slice with the bytes of a string.
func bytesOf(st *State, s *StrV) *SliceV {
	var cs []*Chunk
	switch {
	case s.lit != nil:
		for i := 0; i < len(*s.lit); i++ {
			cs = append(cs, &Chunk{v: linC(int64((*s.lit)[i]))})
		}
	case s.src != nil:
		cs = expandSeg(st.f, s.src.arr, s.src.off, s.src.end)
	default:
		base := "bytesof:" + s.vkey()
		strOfBytes[base] = s
		cs = []*Chunk{{arr: &ArrV{elem: types.Typ[types.Uint8], base: base}, off: linC(0), end: s.n}}
	}
	return sliceOf(st, cs, types.Typ[types.Uint8], "bytesof("+s.vkey()+")")
}

// sliceOf makes a new slice with the content.
func sliceOf(st *State, cs []*Chunk, elem types.Type, name string) *SliceV {
	n := chunksLen(cs)
	key := "seq " + name + "|" + chunksKey(cs)
	k := st.next(key)
	key = fmt.Sprintf("%s#%d", key, k)
	o, ok := symObjs[key]
	if !ok {
		o = &Obj{name: fmt.Sprintf("seq#%d(%s)", k, chunksKey(cs)), typ: elem, elem: true}
		symObjs[key] = o
	}
	st.mem[o] = contArr(elem, cs)
	return &SliceV{ptr: &PtrV{obj: o}, off: linC(0), n: n, cap: n}
}

func contArr(elem types.Type, cs []*Chunk) *ArrV {
	if len(cs) == 1 && cs[0].arr != nil && cs[0].off.constIs(0) && len(cs[0].arr.ov) == 0 && !cs[0].arr.isCont {
		return cs[0].arr
	}
	return &ArrV{elem: elem, isCont: true, content: cs}
}

// --- join of partitions

func valKey(st *State, v Value) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *Lin:
		return st.f.reduce(x).key
	case *IfaceV:
		if !x.isNil && x.t == nil {
			return x.vkey() + fmt.Sprint(x.nn)
		}
	case *PtrV:
		if !x.isNil && x.nilName != "" {
			return x.vkey() + "?" + x.nilName
		}
	case *SliceV:
		if !x.isNil && x.nilName != "" {
			return x.vkey() + "," + x.cap.key + "?" + x.nilName
		}
	}
	return v.vkey()
}

func (s *State) key() string {
	var parts []string
	for o, v := range s.mem {
		if o.sym || o.glob != nil {
			// nothing but the unknown first value: as if it had not been looked at
			if s.isDefault(o, v) {
				continue
			}
		}
		parts = append(parts, o.name+"="+valKey(s, v))
	}
	sort.Strings(parts)
	var sb strings.Builder
	for _, p := range parts {
		sb.WriteString(p)
		sb.WriteByte('\n')
	}
	sb.WriteString("#trace")
	for _, ev := range s.trace {
		sb.WriteString(ev.key())
		sb.WriteByte(';')
	}
	sb.WriteString("#held" + s.heldKey())
	var fs []string
	for k, v := range s.flags {
		fs = append(fs, k+"="+valKey(s, v))
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, ","))
	return sb.String()
}

func (s *State) isDefault(o *Obj, v Value) bool {
	tmp := &State{mem: map[*Obj]Value{}}
	return tmp.root(o).vkey() == v.vkey()
}

func (f *Facts) join(g *Facts) *Facts {
	r := newFacts()
	for k, v := range f.b {
		if w, ok := g.b[k]; ok && w == v {
			r.b[k] = v
		}
	}
	for a, s := range f.sets {
		if t, ok := g.sets[a]; ok {
			u := *s
			for i := range u {
				u[i] |= t[i]
			}
			r.sets[a] = &u
		}
	}
	for k, d := range f.dyn {
		if e, ok := g.dyn[k]; ok {
			if d.is != nil && e.is != nil && types.Identical(d.is, e.is) {
				r.dyn[k] = d
				continue
			}
			n := &dynFact{}
			for _, t := range d.not {
				if g.decideDyn(k, t) == 0 {
					n.not = append(n.not, t)
				}
			}
			for _, t := range e.not {
				if f.decideDyn(k, t) == 0 && n.decide(t) != 0 {
					n.not = append(n.not, t)
				}
			}
			if len(n.not) > 0 {
				r.dyn[k] = n
			}
		}
	}
	for k, v := range f.ne {
		var keep []*big.Int
		for _, x := range v {
			in := false
			for _, y := range g.ne[k] {
				if x.Cmp(y) == 0 {
					in = true
				}
			}
			if in {
				keep = append(keep, x)
			}
		}
		if keep != nil {
			r.ne[k] = keep
		}
	}
	add := func(e ivEntry, h *Facts) {
		iv := e.iv.hull(h.rng(e.l))
		if iv.lo == nil && iv.hi == nil {
			return
		}
		// nothing more than what is known anyway
		base := newFacts().rngd(e.l, 0)
		if base.within(iv) {
			return
		}
		if old, ok := r.iv[e.l.hk]; ok {
			iv = iv.hull(old.iv)
		}
		r.iv[e.l.hk] = ivEntry{e.l, iv}
		r.idx = nil
	}
	for _, e := range sortedMap(f.iv) {
		add(e, g)
	}
	for _, k := range sortedKeys(g.iv) {
		e := g.iv[k]
		if _, ok := f.iv[k]; !ok {
			add(e, f)
		}
	}
	return r
}

// bkey is what is known about opaque conditions.
func (f *Facts) bkey() string {
	var s []string
	for k, v := range f.b {
		s = append(s, fmt.Sprint(k, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (d *dynFact) decide(t types.Type) int {
	for _, x := range d.not {
		if types.Identical(x, t) {
			return 0
		}
	}
	return -1
}

func (fr *frame) bkey(bs *bstate) string {
	var parts []string
	for r, v := range bs.regs {
		parts = append(parts, r.Name()+"="+valKey(bs.st, v))
	}
	sort.Strings(parts)
	s := strings.Join(parts, "\n") + "|" + bs.st.key() + "|" + bs.st.f.bkey() + "|"
	for _, d := range bs.defers {
		s += fmt.Sprintf("%p", d.instr)
		for _, a := range d.args {
			s += vk(a)
		}
	}
	return s
}

// merge joins the partitions that differ in nothing but the facts.
func (fr *frame) merge(b *ssa.BasicBlock, in []*bstate) []*bstate {
	if len(in) < 2 {
		return in
	}
	seen := map[string]*bstate{}
	var out []*bstate
	for _, bs := range in {
		k := fr.bkey(bs)
		if o, ok := seen[k]; ok && !fr.e.noJoin {
			o.st.f = o.st.f.join(bs.st.f)
			o.st.mergeCounts(bs.st)
			continue
		}
		seen[k] = bs
		out = append(out, bs)
	}
	if fr.e.coarse > 0 && len(out) > fr.e.coarse {
		out = fr.coarsenStates(out)
	}
	if len(out) > fr.e.maxParts {
		panic(undecided{fmt.Sprintf("%d partitions in %s", len(out), funcName(fr.fn))})
	}
	return out
}

// coarsenStates does at a merge point what coarsen does at a return.
func (fr *frame) coarsenStates(in []*bstate) []*bstate {
	groups := map[string]int{}
	var out []*bstate
	for _, bs := range in {
		bs.st.prune(fr.mark, bs.regs, nil)
		var regs []ssa.Value
		for r := range bs.regs {
			regs = append(regs, r)
		}
		sort.Slice(regs, func(i, j int) bool { return regs[i].Name() < regs[j].Name() })
		tup := TupleV{}
		k := ""
		for _, r := range regs {
			tup = append(tup, bs.regs[r])
			k += r.Name() + ","
		}
		for _, d := range bs.defers {
			k += fmt.Sprintf("%p", d.instr)
			for _, a := range d.args {
				k += vk(a)
			}
		}
		k += fr.e.signature(ret{bs.st, tup})
		i, ok := groups[k]
		if !ok {
			groups[k] = len(out)
			out = append(out, bs)
			continue
		}
		o := out[i]
		ot := TupleV{}
		for _, r := range regs {
			ot = append(ot, o.regs[r])
		}
		j := lossyJoin(ret{o.st, ot}, ret{bs.st, tup})
		n := &bstate{st: j.st, regs: map[ssa.Value]Value{}, defers: o.defers}
		for x, r := range regs {
			n.regs[r] = j.v.(TupleV)[x]
		}
		n.st.prune(fr.mark, n.regs, nil)
		out[i] = n
	}
	return out
}

func (e *Engine) atomMark() int { return e.curMark }

// prune forgets the facts about atoms made after the mark that occur in no value.
func (s *State) prune(mark int, regs map[ssa.Value]Value, v Value) {
	live := map[*Atom]bool{}
	seen := map[any]bool{}
	var lin func(l *Lin)
	lin = func(l *Lin) {
		if l == nil {
			return
		}
		for _, t := range l.ts {
			live[t.a] = true
		}
	}
	var walk func(v Value)
	var chunk func(c *Chunk)
	chunk = func(c *Chunk) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		lin(c.off)
		lin(c.end)
		if c.v != nil {
			walk(c.v)
		}
		if c.arr != nil {
			walk(c.arr)
		}
		if c.star != nil {
			lin(c.star.n)
			for _, a := range c.star.alts {
				for _, x := range a.chunks {
					chunk(x)
				}
			}
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case *Lin:
			lin(x)
		case *BoolV:
			lin(x.l)
		case *StrV:
			lin(x.n)
			chunk(x.src)
		case *PtrV:
			for _, p := range x.path {
				lin(p.idx)
			}
		case *SliceV:
			lin(x.off)
			lin(x.n)
			lin(x.cap)
		case *FuncV:
			for _, b := range x.binds {
				walk(b)
			}
		case *IfaceV:
			if x.v != nil {
				walk(x.v)
			}
			for _, a := range x.args {
				if a != nil {
					walk(a)
				}
			}
		case *StructV:
			for _, y := range x.f {
				walk(y)
			}
		case TupleV:
			for _, y := range x {
				walk(y)
			}
		case *ArrV:
			if seen[x] {
				return
			}
			seen[x] = true
			for _, o := range x.ov {
				lin(o.lo)
				lin(o.n)
				if o.v != nil {
					walk(o.v)
				}
				chunk(o.src)
			}
			for _, c := range x.content {
				chunk(c)
			}
		case *BufV:
			for _, c := range x.cs {
				chunk(c)
			}
			if x.src != nil {
				walk(x.src)
			}
		case *MapState:
			for _, e := range x.ents {
				walk(e.k)
				walk(e.v)
			}
		}
	}
	for _, x := range s.mem {
		walk(x)
	}
	for _, x := range regs {
		walk(x)
	}
	if v != nil {
		walk(v)
	}
	for _, x := range s.flags {
		walk(x)
	}
	keep := func(l *Lin) bool {
		for _, t := range l.ts {
			if t.a.id >= mark && !live[t.a] && !strings.HasPrefix(t.a.name, "len(") && !strings.HasPrefix(t.a.name, "off<") {
				return false
			}
		}
		return true
	}
	drop := map[string]bool{}
	for k, e := range s.f.iv {
		kept := keep(e.l)
		if kept && len(e.l.ts) > 1 {
			// bounds that come from the ranges of the types say nothing
			iv := e.iv
			if iv.hi != nil && iv.hi.BitLen() > 36 {
				iv.hi = nil
			}
			if iv.lo != nil && iv.lo.BitLen() > 36 {
				iv.lo = nil
			}
			if iv.lo == nil && iv.hi == nil {
				kept = false
			} else {
				s.f.iv[k] = ivEntry{e.l, iv}
				s.f.idx = nil
			}
		}
		if !kept {
			delete(s.f.iv, k)
			drop[k] = true
			s.f.idx = nil
		}
	}
	for k := range s.f.ne {
		if drop[k] {
			delete(s.f.ne, k)
		}
	}
	for a := range s.f.sets {
		if a.id >= mark && !live[a] {
			delete(s.f.sets, a)
		}
	}
}

func (s *State) mergeCounts(o *State) {
	for k, v := range o.adv {
		if v < s.adv[k] {
			s.adv[k] = v
		}
	}
	for k, v := range s.adv {
		if o.adv[k] < v {
			s.adv[k] = o.adv[k]
		}
	}
	for k, v := range o.counts {
		if v > s.counts[k] {
			s.counts[k] = v
		}
	}
}

// mergeRets joins the partitions at the return of a function.
func (e *Engine) mergeRets(rets []ret, before map[*Obj]bool) []ret {
	for _, r := range rets {
		if len(rets) == 1 && e.coarse == 0 && len(r.st.mem) < r.st.gcAt {
			continue // nothing to compare with
		}
		r.st.collect(before, r.v, false)
		r.st.gcAt = len(r.st.mem)*5/4 + 64
		if e.coarse > 0 {
			r.st.prune(e.atomMark(), nil, r.v)
		}
	}
	if len(rets) < 2 {
		return rets
	}
	seen := map[string]int{}
	var out []ret
	for _, r := range rets {
		k := valKey(r.st, r.v) + "|" + r.st.key() + "|" + r.st.f.bkey()
		if i, ok := seen[k]; ok && !e.noJoin {
			out[i].st.f = out[i].st.f.join(r.st.f)
			out[i].st.mergeCounts(r.st)
			continue
		}
		seen[k] = len(out)
		out = append(out, r)
	}
	if e.coarse > 0 && len(out) > e.coarse {
		out = e.coarsen(out)
	}
	if len(out) > e.maxParts {
		panic(undecided{fmt.Sprintf("%d partitions", len(out))})
	}
	return out
}

// coarsen joins the partitions that agree on what is nil, on conditions, on
// the events and on dynamic types; other differences are forgotten.
func (e *Engine) coarsen(rets []ret) []ret {
	groups := map[string]int{}
	var out []ret
	for _, r := range rets {
		k := e.signature(r)
		i, ok := groups[k]
		if !ok {
			groups[k] = len(out)
			out = append(out, r)
			continue
		}
		out[i] = lossyJoin(out[i], r)
	}
	return out
}

func sigOf(st *State, v Value, depth int) string {
	nilness := func() string { return fmt.Sprint(st.decide(st.nilCond(v))) }
	switch x := v.(type) {
	case *BoolV:
		return fmt.Sprint(st.decide(x))
	case *PtrV, *MapV, *ChanV, *FuncV:
		return nilness()
	case *SliceV:
		return "s"
	case *IfaceV:
		return nilness()
	case TupleV:
		s := ""
		for _, y := range x {
			s += sigOf(st, y, depth+1) + ","
		}
		return s
	case *StructV:
		if depth > 3 {
			return ""
		}
		s := "{"
		for k := 0; k < x.t.NumFields(); k++ {
			g := sigOf(st, x.field(k), depth+1)
			if g != "" && g != "s" {
				s += fmt.Sprint(k) + g + ","
			}
		}
		return s + "}"
	}
	return ""
}

func (e *Engine) signature(r ret) string {
	var parts []string
	for o, v := range r.st.mem {
		if o.glob != nil {
			continue
		}
		// only what may be an error or a mode matters
		if g := sigOf(r.st, v, 0); g != "" && g != "{}" {
			parts = append(parts, o.name+":"+g)
		}
	}
	sort.Strings(parts)
	s := strings.Join(parts, ";") + "|" + sigOf(r.st, r.v, 0) + "|" + r.st.heldKey()
	for _, ev := range r.st.trace {
		s += ev.key() + ";"
	}
	var fs []string
	for k, v := range r.st.flags {
		if b, ok := v.(*BoolV); ok && k == "short" {
			k += fmt.Sprint(r.st.decide(b))
		}
		fs = append(fs, k)
	}
	sort.Strings(fs)
	return s + strings.Join(fs, ",")
}

// lossyJoin joins two partitions; locations with different values get a new
// unknown value of which the ranges, and the position relative to the values
// before, are kept.
func lossyJoin(a, b ret) ret {
	n := a.st.clone()
	n.f = a.st.f.join(b.st.f)
	n.mergeCounts(b.st)
	j := &joiner{a: a.st, b: b.st, n: n}
	for _, o := range sortedObjs(a.st.mem) {
		av := a.st.mem[o]
		bv, ok := b.st.mem[o]
		if !ok {
			if o.sym || o.glob != nil {
				bv = b.st.root(o)
			} else {
				continue // only on one path
			}
		}
		if valKey(a.st, av) == valKey(b.st, bv) {
			continue
		}
		n.mem[o] = j.value(av, bv, o.typ, o.elem)
	}
	for _, o := range sortedObjs(b.st.mem) {
		bv := b.st.mem[o]
		if _, ok := a.st.mem[o]; ok {
			continue
		}
		if o.sym || o.glob != nil {
			av := a.st.root(o)
			if valKey(a.st, av) == valKey(b.st, bv) {
				n.mem[o] = bv
			} else {
				n.mem[o] = j.value(av, bv, o.typ, o.elem)
			}
		} else {
			n.mem[o] = bv
		}
	}
	for k, av := range a.st.flags {
		bv := b.st.flags[k]
		if x, ok := av.(*BoolV); ok {
			if y, ok := bv.(*BoolV); ok && a.st.decide(x) >= 0 && a.st.decide(x) == b.st.decide(y) {
				n.flags[k] = boolC(a.st.decide(x) == 1)
				continue
			}
		}
		if bv == nil || bv.vkey() != av.vkey() {
			n.flags[k] = boolAtom(fresh("flag"))
		}
	}
	v := j.any(a.v, b.v)
	return ret{n, v}
}

type joiner struct{ a, b, n *State }

func (j *joiner) any(x, y Value) Value {
	if t, ok := x.(TupleV); ok {
		u := y.(TupleV)
		r := make(TupleV, len(t))
		for i := range t {
			r[i] = j.any(t[i], u[i])
		}
		return r
	}
	if valKey(j.a, x) == valKey(j.b, y) {
		return x
	}
	return j.value(x, y, nil, false)
}

func (j *joiner) value(x, y Value, t types.Type, elem bool) Value {
	if valKey(j.a, x) == valKey(j.b, y) {
		return x
	}
	both := func() bool { return j.a.decide(j.a.nilCond(x)) == 0 && j.b.decide(j.b.nilCond(y)) == 0 }
	name := fresh("join")
	switch u := x.(type) {
	case *Lin:
		v, ok := y.(*Lin)
		if !ok {
			break
		}
		return j.lin(u, v)
	case *BoolV:
		return boolAtom(name)
	case *FloatV:
		return &FloatV{name: name, w: u.w}
	case *StrV:
		if v, ok := y.(*StrV); ok {
			return &StrV{name: name, n: j.lin(u.n, v.n)}
		}
	case *StructV:
		if v, ok := y.(*StructV); ok {
			r := &StructV{t: u.t, base: u.base, f: map[int]Value{}}
			for i := 0; i < u.t.NumFields(); i++ {
				r.f[i] = j.value(u.field(i), v.field(i), u.t.Field(i).Type(), false)
			}
			return r
		}
	case *BufV:
		if v, ok := y.(*BufV); ok {
			end := (*Lin)(nil)
			var arr *ArrV
			off := func(b *BufV, o *BufV) *Lin {
				if len(b.cs) == 1 && b.cs[0].arr != nil {
					arr, end = b.cs[0].arr, b.cs[0].end
					return b.cs[0].off
				}
				if len(b.cs) == 0 && len(o.cs) == 1 && o.cs[0].arr != nil {
					return o.cs[0].end
				}
				return nil
			}
			p, q := off(u, v), off(v, u)
			same := p != nil && q != nil
			if same && len(u.cs) == 1 && len(v.cs) == 1 {
				same = u.cs[0].arr.vkey() == v.cs[0].arr.vkey() && u.cs[0].end.key == v.cs[0].end.key
			}
			if same {
				anchors := u.anchors
				for _, x := range v.anchors {
					in := false
					for _, y := range anchors {
						in = in || x.key == y.key
					}
					if !in {
						anchors = append(anchors[:len(anchors):len(anchors)], x)
					}
				}
				if len(anchors) > 6 {
					anchors = anchors[len(anchors)-6:]
				}
				o := j.lin(p, q)
				j.n.f.assumeCmp(o.sub(end), opLE)
				for _, an := range anchors {
					lo := j.a.f.rng(p.sub(an)).hull(j.b.f.rng(q.sub(an))).lo
					if lo != nil && lo.BitLen() < 36 {
						j.n.f.assumeCmp(linBig(lo).sub(o.sub(an)), opLE)
					}
				}
				return &BufV{cs: []*Chunk{{arr: arr, off: o, end: end}}, anchors: anchors}
			}
			return &BufV{cs: []*Chunk{{arr: &ArrV{elem: types.Typ[types.Uint8], base: name}, off: linC(0), end: lenAtom("len(" + name + ")")}}}
		}
	case *PtrV:
		if v, ok := y.(*PtrV); ok {
			var et types.Type
			for _, p := range []*PtrV{u, v} {
				if !p.isNil {
					et = pathTypeObj(p)
				}
			}
			r := symValue(name, types.NewPointer(et)).(*PtrV)
			if both() {
				r.nilName = ""
			}
			return r
		}
	case *SliceV:
		if v, ok := y.(*SliceV); ok {
			var et types.Type
			for _, p := range []*SliceV{u, v} {
				if p.ptr != nil {
					if len(p.ptr.path) == 0 {
						et = p.ptr.obj.typ
					} else if a, ok := pathTypeObj(p.ptr).Underlying().(*types.Array); ok {
						et = a.Elem()
					}
				}
			}
			r := symValue(name, types.NewSlice(et)).(*SliceV)
			n := j.lin(u.n, v.n)
			x := lenAtom("capx(" + name + ")")
			if both() {
				r.nilName = ""
			}
			return &SliceV{nilName: r.nilName, ptr: r.ptr, off: linC(0), n: n, cap: n.add(x)}
		}
	case *ArrV:
		return &ArrV{elem: u.elem, base: name}
	case *MapState:
		return &MapState{base: name}
	case *ChanState:
		return &ChanState{cap: u.cap, closed: "?"}
	case *IfaceV:
		r := &IfaceV{name: name, nn: both(), origin: "join"}
		return r
	case *MapV:
		r := *u
		if u.isNil {
			r = *(y.(*MapV))
		}
		return symValue(name, r.typ)
	case *FuncV:
		return &FuncV{name: name}
	case *ChanV:
		return &ChanV{nilName: "nil(" + name + ")", obj: symObj(name, types.NewChan(types.SendRecv, u.elem), false), elem: u.elem}
	case TupleV:
		return j.any(x, y)
	}
	if t != nil {
		return symValue(name, t)
	}
	return &OpaqueV{name}
}

// lin joins two integers.
func (j *joiner) lin(x, y *Lin) *Lin {
	x, y = j.a.f.reduce(x), j.b.f.reduce(y)
	if x.key == y.key {
		return x
	}
	all := j.a.f.rng(x).hull(j.b.f.rng(y))
	var l *Lin
	switch u48 := (ivl{bigZero, pow2(48)}); {
	case all.within(ivlC(0, 255)):
		l = linAtom(mkAtom(fresh("join"), 8, false))
		if a, b := j.a.f.byteSet(x), j.b.f.byteSet(y); a != nil && b != nil {
			for i := range a {
				a[i] |= b[i]
			}
			j.n.f.setByte(l, a)
		}
	case all.within(u48):
		l = linAtom(mkAtom(fresh("join"), 49, false))
	default:
		l = linAtom(mkAtom(fresh("join"), 66, true))
	}
	rel := func(an *Lin) {
		iv := j.a.f.rng(x.sub(an)).hull(j.b.f.rng(y.sub(an)))
		d := l.sub(an)
		triv := j.n.f.rngd(l, 0).add(j.n.f.rngd(an, 0).scale(big.NewInt(-1)))
		if triv.hi != nil && iv.hi != nil && iv.hi.Cmp(triv.hi) >= 0 {
			iv.hi = nil
		}
		if triv.lo != nil && iv.lo != nil && iv.lo.Cmp(triv.lo) <= 0 {
			iv.lo = nil
		}
		if iv.hi != nil {
			j.n.f.assumeCmp(d.sub(linBig(iv.hi)), opLE)
		}
		if iv.lo != nil {
			j.n.f.assumeCmp(linBig(iv.lo).sub(d), opLE)
		}
	}
	rel(linC(0))
	return l
}

// collect forgets the objects that a function allocated and that nothing
// refers to after its return.
// fresh: also symbolic objects that were not there before.
func (s *State) collect(before map[*Obj]bool, v Value, fresh bool) {
	mark := map[*Obj]bool{}
	names := map[string]bool{}
	var walk func(v Value, depth int)
	visitObj := func(o *Obj, depth int) {
		if o == nil || mark[o] {
			return
		}
		mark[o] = true
		if x, ok := s.mem[o]; ok {
			walk(x, depth+1)
		}
	}
	walk = func(v Value, depth int) {
		switch x := v.(type) {
		case *PtrV:
			visitObj(x.obj, depth)
		case *SliceV:
			if x.ptr != nil {
				visitObj(x.ptr.obj, depth)
			}
		case *MapV:
			visitObj(x.obj, depth)
		case *ChanV:
			visitObj(x.obj, depth)
		case *FuncV:
			for _, b := range x.binds {
				walk(b, depth)
			}
		case *IfaceV:
			if x.v != nil {
				walk(x.v, depth)
			} else if x.name != "" {
				names[x.name] = true
			}
			for _, a := range x.args {
				walk(a, depth)
			}
		case *StructV:
			for _, y := range x.f {
				walk(y, depth)
			}
		case TupleV:
			for _, y := range x {
				walk(y, depth)
			}
		case *ArrV:
			for _, o := range x.ov {
				if o.v != nil {
					walk(o.v, depth)
				}
				if o.src != nil {
					walkChunk(o.src, walk, depth)
				}
			}
			for _, c := range x.content {
				walkChunk(c, walk, depth)
			}
		case *BufV:
			for _, c := range x.cs {
				walkChunk(c, walk, depth)
			}
			if x.src != nil {
				walk(x.src, depth)
			}
		case *MapState:
			for _, e := range x.ents {
				walk(e.k, depth)
				walk(e.v, depth)
			}
		}
	}
	for _, o := range sortedObjs(before) {
		visitObj(o, 0)
	}
	var later []*Obj
	for _, o := range sortedObjs(s.mem) {
		if fresh && o.sym && strings.Contains(o.name, "~") && !before[o] {
			later = append(later, o) // a result that was not there before
			continue
		}
		if o.sym || o.glob != nil {
			visitObj(o, 0)
		}
	}
	walk(v, 0)
	for _, ev := range s.trace {
		for _, a := range ev.args {
			if a != nil {
				walk(a, 0)
			}
		}
	}
	for _, x := range s.flags {
		walk(x, 0)
	}
	// what can be reached through parts that were not looked at
	for again := true; again && len(later) > 0; {
		again = false
		for _, o := range later {
			if mark[o] {
				continue
			}
			for m := range mark {
				if strings.HasPrefix(o.name, m.name) {
					names[m.name] = true
				}
			}
			for n := range names {
				if strings.HasPrefix(o.name, n) {
					visitObj(o, 0)
					again = true
					break
				}
			}
		}
	}
	for o := range s.mem {
		if !mark[o] {
			delete(s.mem, o)
		}
	}
}

func walkChunk(c *Chunk, walk func(Value, int), depth int) {
	switch {
	case c.v != nil:
		walk(c.v, depth)
	case c.arr != nil:
		walk(c.arr, depth)
	case c.star != nil:
		for _, a := range c.star.alts {
			for _, x := range a.chunks {
				walkChunk(x, walk, depth)
			}
		}
	}
}
