package main

import (
	"math/big"
	"strings"
)

// renamer replaces the counter of one loop by that of another, in names too.
type renamer struct {
	from, to string
	drop     string // facts about such names are left out
	m        map[*Atom]*Atom
}

func newRenamer(from, to *Atom) *renamer {
	return &renamer{from: from.name, to: to.name, m: map[*Atom]*Atom{}}
}

func (r *renamer) s(n string) string { return strings.ReplaceAll(n, r.from, r.to) }

func (r *renamer) atom(a *Atom) *Atom {
	if b, ok := r.m[a]; ok {
		return b
	}
	b := a
	if n := r.s(a.name); n != a.name {
		b = mkAtomRange(n, a.w, a.signed, a.lo, a.hi)
	}
	r.m[a] = b
	return b
}

func (r *renamer) lin(l *Lin) *Lin {
	if l == nil || !strings.Contains(l.key, r.from) {
		return l
	}
	ts := make([]LTerm, len(l.ts))
	copy(ts, l.ts)
	for i := range ts {
		ts[i].a = r.atom(ts[i].a)
	}
	return newLin(new(big.Int).Set(l.c), ts)
}

func (r *renamer) val(v Value) Value {
	if v == nil || !strings.Contains(v.vkey(), r.from) {
		return v
	}
	switch x := v.(type) {
	case *Lin:
		return r.lin(x)
	case *BoolV:
		n := *x
		n.name = r.s(x.name)
		if x.l != nil {
			n.l = r.lin(x.l)
		}
		return &n
	case *FloatV:
		n := *x
		n.name = r.s(x.name)
		return &n
	case *StrV:
		n := *x
		n.name = r.s(x.name)
		n.n = r.lin(x.n)
		return &n
	case *IfaceV:
		n := *x
		n.name = r.s(x.name)
		if x.v != nil {
			n.v = r.val(x.v)
		}
		return &n
	case *StructV:
		n := &StructV{t: x.t, base: r.s(x.base)}
		for i := 0; i < x.t.NumFields(); i++ {
			n = n.with(i, r.val(x.field(i)))
		}
		return n
	case *SliceV:
		n := *x
		n.nilName = r.s(x.nilName)
		n.off, n.n = r.lin(x.off), r.lin(x.n)
		if x.cap != nil {
			n.cap = r.lin(x.cap)
		}
		return &n
	case *ArrV:
		n := &ArrV{elem: x.elem, base: r.s(x.base), isCont: x.isCont, content: r.chunks(x.content)}
		for _, o := range x.ov {
			p := ovEntry{lo: r.lin(o.lo), n: r.lin(o.n), v: r.val(o.v)}
			if o.src != nil {
				p.src = r.chunk(o.src)
			}
			n.ov = append(n.ov, p)
		}
		return n
	}
	return v
}

func (r *renamer) chunk(c *Chunk) *Chunk {
	n := *c
	if c.v != nil {
		n.v = r.val(c.v)
	}
	if c.arr != nil {
		n.arr = r.val(c.arr).(*ArrV)
		n.off, n.end = r.lin(c.off), r.lin(c.end)
	}
	if c.star != nil {
		s := *c.star
		s.n = r.lin(s.n)
		s.alts = nil
		for _, a := range c.star.alts {
			b := a
			b.chunks = r.chunks(a.chunks)
			b.f = r.facts(a.f)
			s.alts = append(s.alts, b)
		}
		n.star = &s
	}
	return &n
}

func (r *renamer) chunks(cs []*Chunk) []*Chunk {
	if cs == nil {
		return nil
	}
	out := make([]*Chunk, len(cs))
	for i, c := range cs {
		out[i] = r.chunk(c)
	}
	return out
}

func (r *renamer) facts(f *Facts) *Facts {
	if r.drop != "" {
		f = without(f, r.drop)
	}
	n := newFacts()
	for k, v := range f.b {
		n.b[r.s(k)] = v
	}
	for a, s := range f.sets {
		n.sets[r.atom(a)] = s
	}
	for k, d := range f.dyn {
		n.dyn[r.s(k)] = d
	}
	for _, e := range sortedMap(f.iv) {
		n.assumeIvl(r.lin(e.l), e.iv)
	}
	return n
}

func (f *Facts) assumeIvl(l *Lin, iv ivl) {
	if iv.isConst() {
		f.assumeCmp(l.sub(linBig(iv.lo)), opEQ)
		return
	}
	if iv.hi != nil {
		f.assumeCmp(l.sub(linBig(iv.hi)), opLE)
	}
	if iv.lo != nil {
		f.assumeCmp(linBig(iv.lo).sub(l), opLE)
	}
}
