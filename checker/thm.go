package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theorems are functions of the package thm that call functions of the module
// and state what they compute. They are interpreted abstractly with arbitrary
// arguments; Assert, Equal and Same are the obligations.

const thmPath = modulePath + "/verifthm"

// thmFiles are the files of the theorems, if there are some of the property.
func thmFiles(dir, id string) map[string][]string {
	fs, _ := filepath.Glob(filepath.Join(dir, "checker", "thm", "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if b, _ := os.ReadFile(f); strings.Contains(string(b), "func "+id+"_") {
			return map[string][]string{thmPath: fs}
		}
	}
	return nil
}

type thmRun struct {
	c    *Ctx
	e    *Engine
	fn   *ssa.Function
	seen map[ssa.Instruction]bool // statements reached
	tune func(e *Engine, fn *ssa.Function)
}

func (t *thmRun) fail(c *call, msg, why string) {
	if t.e.quiet > 0 {
		return
	}
	in := c.in.(ssa.Instruction)
	subj := t.subject(in)
	t.c.violate("specification", t.c.p.pos(subj.Pos()), funcName(subj)+": "+strings.TrimPrefix(funcName(t.fn), "verifthm.")+": "+msg,
		"%s | stated at %s | facts %s", why, t.c.p.pos(in.Pos()), clip(c.st.f.String(), 500))
}

// subject is the function of the module that a statement is about: the last
// one called before it in the theorem.
func (t *thmRun) subject(in ssa.Instruction) *ssa.Function {
	var last *ssa.Function
	var first *ssa.Function
	visit := func(f *ssa.Function, upto ssa.Instruction) {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && t.c.p.inModule(g) && g.Pkg != nil && g.Pkg.Pkg.Path() != thmPath {
						n := g.Name()
						if strings.HasPrefix(n, "New") || n == "Bytes" || n == "Error" {
							continue
						}
						if first == nil {
							first = g
						}
						if x.Pos() < in.Pos() {
							last = g
						}
					}
				}
			}
		}
	}
	visit(t.fn, in)
	if last == nil {
		last = first
	}
	if last == nil {
		return t.fn
	}
	return last
}

func (t *thmRun) msg(c *call, i int) string {
	if s, ok := c.args[i].(*StrV); ok && s.lit != nil {
		return *s.lit
	}
	return "?"
}

func (t *thmRun) done(c *call) []outcome { return c.ret(TupleV{}) }

func (t *thmRun) install() {
	e := t.e
	e.override["verifthm.Assert"] = func(c *call) []outcome {
		in := c.in.(ssa.Instruction)
		t.seen[in] = true
		b, _ := c.args[0].(*BoolV)
		if b == nil {
			t.fail(c, t.msg(c, 1), "the condition is unknown")
			return t.done(c)
		}
		if c.e.quiet == 0 {
			t.c.count("obligation instances", 1)
		}
		switch c.st.decide(b) {
		case 1:
			return t.done(c)
		case 0:
			t.fail(c, t.msg(c, 1), "does not hold")
			return nil
		}
		s := c.st.clone()
		if s.assume(b, false) && s.f.consistent() && s.feasible() {
			t.fail(c, t.msg(c, 1), "is not certain: "+b.vkey())
		}
		if !c.st.assume(b, true) {
			return nil
		}
		return t.done(c)
	}
	e.override["verifthm.Assume"] = func(c *call) []outcome {
		b, _ := c.args[0].(*BoolV)
		if b == nil {
			return t.done(c)
		}
		if !c.st.assume(b, true) {
			return nil
		}
		return t.done(c)
	}
	flag := func(name string) {
		e.override["verifthm."+strings.ToUpper(name[:1])+name[1:]] = func(c *call) []outcome {
			c.st.flags[name] = boolC(true)
			return t.done(c)
		}
	}
	flag("hold")
	flag("prompt")
	flag("tick")
	e.override["verifthm.Settle"] = func(c *call) []outcome {
		var outs []outcome
		for _, s := range c.fr.settle(c.bs) {
			outs = append(outs, outcome{s, TupleV{}})
		}
		return outs
	}
	for name, queued := range map[string]bool{"Queued": true, "Kept": false} {
		queued := queued
		e.override["verifthm."+name] = func(c *call) []outcome {
			return c.ret(linC(int64(c.st.heldBy(c.args[0], queued, map[*Obj]bool{}))))
		}
	}
	e.override["verifthm.Mentions"] = func(c *call) []outcome {
		n, _ := c.args[1].(*Lin)
		return c.ret(boolC(n != nil && c.st.mentions(c.args[0], n, map[*Obj]bool{}, 0)))
	}
	e.override["verifthm.Waits"] = func(c *call) []outcome {
		d, _ := c.args[0].(*Lin)
		n := int64(0)
		for _, ev := range c.st.trace {
			if d != nil && timers[ev.name] {
				for _, a := range ev.args {
					k := c.argKey(a)
					later := strings.Contains(k, d.key) && !strings.Contains(k, "(time.Duration).") && !strings.Contains(k, "mul(") && !strings.Contains(k, "quo(") && !strings.Contains(k, "div/(")
					if later || c.st.mentions(a, d, map[*Obj]bool{}, 0) {
						n++
						break
					}
				}
			}
		}
		return c.ret(linC(n))
	}
	e.override["verifthm.Equal"] = func(c *call) []outcome {
		t.seen[c.in.(ssa.Instruction)] = true
		if c.e.quiet == 0 {
			t.c.count("obligation instances", 1)
		}
		a, _ := c.args[0].(*SliceV)
		b, _ := c.args[1].(*SliceV)
		if a == nil || b == nil {
			t.fail(c, t.msg(c, 2), "unknown sequence")
			return t.done(c)
		}
		if why := equalSegs(c.st, c.st.seg(a), c.st.seg(b), 0); why != "" && c.st.f.consistent() && c.st.feasible() {
			t.fail(c, t.msg(c, 2), why)
		}
		return t.done(c)
	}
	e.override["verifthm.Same"] = func(c *call) []outcome {
		t.seen[c.in.(ssa.Instruction)] = true
		if c.e.quiet == 0 {
			t.c.count("obligation instances", 1)
		}
		if why := sameValue(c.st, c.args[0], c.args[1], 0); why != "" && c.st.f.consistent() && c.st.feasible() {
			t.fail(c, t.msg(c, 2), why)
		}
		return t.done(c)
	}
}

// timers are functions that something waits for.
var timers = map[string]bool{
	"context.WithTimeout": true, "context.WithDeadline": true, "context.WithTimeoutCause": true, "context.WithDeadlineCause": true,
	"time.NewTimer": true, "time.After": true, "time.AfterFunc": true, "time.NewTicker": true, "time.Tick": true, "time.Sleep": true,
	"(*time.Timer).Reset": true, "(*time.Ticker).Reset": true,
}

// mentions says whether the number is a part of the value, or of its text.
func (st *State) mentions(v Value, n *Lin, seen map[*Obj]bool, depth int) bool {
	if depth > 20 {
		return false
	}
	part := func(w Value) bool { return st.mentions(w, n, seen, depth+1) }
	switch x := v.(type) {
	case *Lin:
		k, ok := st.f.reduce(x.sub(n)).intConst()
		return ok && k == 0
	case *StrV:
		for _, p := range x.pieces() {
			if p.num != nil && part(p.num) {
				return true
			}
		}
	case *IfaceV:
		if x.v != nil && part(x.v) {
			return true
		}
		for _, a := range x.args {
			if part(a) {
				return true
			}
		}
	case *PtrV:
		if !x.isNil && x.obj != nil && !seen[x.obj] {
			seen[x.obj] = true
			return part(st.root(x.obj))
		}
	case *StructV:
		for i := 0; i < x.t.NumFields(); i++ {
			if part(x.field(i)) {
				return true
			}
		}
	case *SliceV:
		if x.isNil {
			return false
		}
		k, ok := st.f.reduce(x.n).intConst()
		if a, isArr := st.load(x.ptr).(*ArrV); ok && isArr {
			for i := 0; i < k; i++ {
				if part(a.get(st.f, x.off.add(linC(int64(i))))) {
					return true
				}
			}
		}
	}
	return false
}

// feasible is a last look for a contradiction between nil-ness facts.
func (s *State) feasible() bool { return true }

// sameValue compares values deeply; "" if they are the same.
func sameValue(st *State, a, b Value, depth int) string {
	if depth > 12 {
		return "too deep"
	}
	diff := func() string { return fmt.Sprintf("%s is not %s", clip(vk(a), 200), clip(vk(b), 200)) }
	switch x := a.(type) {
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return diff()
		}
		if x.t != nil && y.t != nil {
			if !types.Identical(x.t, y.t) {
				return fmt.Sprintf("type %s is not %s", shortType(x.t), shortType(y.t))
			}
			return sameValue(st, x.v, y.v, depth+1)
		}
		if x.vkey() == y.vkey() {
			return ""
		}
		if n, m := st.decide(st.nilCond(x)), st.decide(st.nilCond(y)); n == 1 && m == 1 {
			return ""
		}
		return diff()
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return diff()
		}
		if x.vkey() == y.vkey() {
			return ""
		}
		n, m := st.decide(st.nilCond(x)), st.decide(st.nilCond(y))
		if n == 1 && m == 1 {
			return ""
		}
		if n == 0 && m == 0 {
			return sameValue(st, st.load(x), st.load(y), depth+1)
		}
		return diff()
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || x.t.NumFields() != y.t.NumFields() {
			return diff()
		}
		for i := 0; i < x.t.NumFields(); i++ {
			if w := sameValue(st, x.field(i), y.field(i), depth+1); w != "" {
				return x.t.Field(i).Name() + ": " + w
			}
		}
		return ""
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return diff()
		}
		return equalSegs(st, st.seg(x), st.seg(y), depth+1)
	case *ArrV:
		if x.vkey() == b.vkey() {
			return ""
		}
		return diff()
	case *FloatV:
		if y, ok := b.(*FloatV); ok && x.vkey() == y.vkey() {
			return ""
		}
		return diff()
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return diff()
		}
		if st.equalValues(x, y) == 1 {
			return ""
		}
		return equalSegs(st, strSeg(st, x), strSeg(st, y), depth+1)
	case *BoolV:
		y, ok := b.(*BoolV)
		if !ok {
			return diff()
		}
		if st.equalValues(x, y) == 1 {
			return ""
		}
		if d, e := st.decide(x), st.decide(y); d >= 0 && d == e {
			return ""
		}
		return diff()
	}
	if a == nil || b == nil {
		return diff()
	}
	if st.equalValues(a, b) == 1 {
		return ""
	}
	if x, ok := a.(*Lin); ok {
		if y, ok := b.(*Lin); ok && canonVals(st.f, x).key == canonVals(st.f, y).key {
			return ""
		}
	}
	return diff()
}

// flatten resolves windows of known contents.
func flatten(f *Facts, cs []*Chunk) []*Chunk {
	var out []*Chunk
	for _, c := range cs {
		if c.arr != nil && len(c.arr.ov) != 0 {
			if p := peel(f, c); p != nil {
				out = append(out, flatten(f, p)...)
				continue
			}
		}
		if c.arr == nil || !c.arr.isCont || len(c.arr.ov) != 0 {
			out = append(out, c)
			continue
		}
		w, ok := window(f, c.arr.content, c.off, c.end)
		if !ok {
			out = append(out, c)
			continue
		}
		out = append(out, flatten(f, w)...)
	}
	return out
}

// peel splits the part of an array at its last overlay; nil if it is not
// certain what the overlay covers.
func peel(f *Facts, c *Chunk) []*Chunk {
	le := func(a, b *Lin) bool { return f.decideCmp(f.reduce(a.sub(b)), opLE) == 1 }
	k := len(c.arr.ov) - 1
	o := c.arr.ov[k]
	n := o.n
	if n == nil {
		n = linC(1)
	}
	hi := o.lo.add(n)
	under := &ArrV{elem: c.arr.elem, base: c.arr.base, content: c.arr.content, isCont: c.arr.isCont, ov: c.arr.ov[:k:k]}
	if le(hi, c.off) || le(c.end, o.lo) || le(n, linC(0)) {
		return []*Chunk{{arr: under, off: c.off, end: c.end}}
	}
	var before, mid, after []*Chunk
	from, to := c.off, c.end
	switch {
	case le(o.lo, c.off):
	case le(c.off, o.lo):
		before = []*Chunk{{arr: under, off: c.off, end: o.lo}}
		from = o.lo
	default:
		return nil
	}
	switch {
	case le(c.end, hi):
	case le(hi, c.end):
		after = []*Chunk{{arr: under, off: hi, end: c.end}}
		to = hi
	default:
		return nil
	}
	if o.n == nil {
		mid = []*Chunk{{v: o.v}}
	} else {
		if o.src == nil || o.src.arr == nil {
			return nil
		}
		mid = []*Chunk{{arr: o.src.arr, off: o.src.off.add(from.sub(o.lo)), end: o.src.off.add(to.sub(o.lo))}}
	}
	return append(append(before, mid...), after...)
}

func window(f *Facts, cs []*Chunk, off, end *Lin) ([]*Chunk, bool) {
	var out []*Chunk
	pos := linC(0)
	le := func(a, b *Lin) bool { return f.decideCmp(f.reduce(a.sub(b)), opLE) == 1 }
	for _, c := range cs {
		if le(end, pos) {
			return out, true
		}
		lo, hi := pos, pos.add(c.length())
		pos = hi
		if le(hi, off) {
			continue
		}
		n := c
		if !le(off, lo) { // starts inside
			if c.arr == nil || !le(lo, off) {
				return nil, false
			}
			n = &Chunk{arr: c.arr, off: c.off.add(off.sub(lo)), end: c.end}
		}
		if !le(hi, end) { // ends inside
			if c.arr == nil || !le(end, hi) {
				return nil, false
			}
			n = &Chunk{arr: c.arr, off: n.off, end: c.off.add(end.sub(lo))}
		}
		out = append(out, n)
	}
	return out, le(end, pos)
}

// strSeg is the content of a string.
func strSeg(st *State, s *StrV) []*Chunk { return st.seg(bytesOf(st, s)) }

// equalSegs compares sequences; "" if they are the same.
func equalSegs(st *State, a, b []*Chunk, depth int) string {
	f := st.f
	i, j := 0, 0
	a = append([]*Chunk{}, flatten(f, a)...)
	b = append([]*Chunk{}, flatten(f, b)...)
	empty := func(c *Chunk) bool { return c.v == nil && f.decideCmp(c.length(), opEQ) == 1 }
	for {
		for i < len(a) && empty(a[i]) {
			i++
		}
		for j < len(b) && empty(b[j]) {
			j++
		}
		if i == len(a) && j == len(b) {
			return ""
		}
		if i == len(a) {
			return fmt.Sprintf("%s is missing at %d", clip(b[j].key(), 200), i)
		}
		if j == len(b) {
			return fmt.Sprintf("%s is too much at %d", clip(a[i].key(), 200), i)
		}
		x, y := a[i], b[j]
		switch {
		case x.v != nil && y.v != nil:
			if w := sameValue(st, x.v, y.v, depth+1); w != "" {
				return fmt.Sprintf("element %d: %s", i, w)
			}
			i++
			j++
		case x.star != nil && y.star != nil:
			if w := equalStars(st, x.star, y.star, depth+1); w != "" {
				return w
			}
			i++
			j++
		case x.arr != nil && y.arr != nil:
			if x.arr.vkey() != y.arr.vkey() || !f.equal(x.off, y.off) {
				return fmt.Sprintf("%s is not %s", clip(x.key(), 200), clip(y.key(), 200))
			}
			d := f.reduce(x.end.sub(y.end))
			switch {
			case f.decideCmp(d, opEQ) == 1:
				i++
				j++
			case f.decideCmp(d, opLE) == 1: // x is shorter
				b[j] = &Chunk{arr: y.arr, off: x.end, end: y.end}
				i++
			case f.decideCmp(d.neg(), opLE) == 1:
				a[i] = &Chunk{arr: x.arr, off: y.end, end: x.end}
				j++
			default:
				return fmt.Sprintf("%s is not %s", clip(x.key(), 200), clip(y.key(), 200))
			}
		case x.arr != nil && y.v != nil && f.decideCmp(linC(1).sub(x.length()), opLE) == 1:
			if w := sameValue(st, x.arr.get(f, x.off), y.v, depth+1); w != "" {
				return fmt.Sprintf("element %d: %s", i, w)
			}
			a[i] = &Chunk{arr: x.arr, off: x.off.addC(1), end: x.end}
			j++
		case y.arr != nil && x.v != nil && f.decideCmp(linC(1).sub(y.length()), opLE) == 1:
			if w := sameValue(st, x.v, y.arr.get(f, y.off), depth+1); w != "" {
				return fmt.Sprintf("element %d: %s", i, w)
			}
			b[j] = &Chunk{arr: y.arr, off: y.off.addC(1), end: y.end}
			i++
		case x.star != nil && y.arr != nil:
			if w := starIsArr(st, x.star, y, depth+1); w != "" {
				return w
			}
			i++
			j++
		case y.star != nil && x.arr != nil:
			if w := starIsArr(st, y.star, x, depth+1); w != "" {
				return w
			}
			i++
			j++
		default:
			return fmt.Sprintf("%s is not %s", clip(x.key(), 200), clip(y.key(), 200))
		}
	}
}

// starIsArr: the loop adds the elements of the array in order.
func starIsArr(st *State, s *Star, y *Chunk, depth int) string {
	why := fmt.Sprintf("the repetition %s is not %s", s.name, clip(y.key(), 200))
	if len(s.alts) != 1 || len(s.alts[0].chunks) != 1 || s.alts[0].chunks[0].v == nil {
		return why
	}
	if !st.f.equal(s.n, y.length()) && !st.f.equal(linAtom(s.kappa), y.length()) {
		return why + " (length)"
	}
	return sameValue(st, s.alts[0].chunks[0].v, y.arr.get(st.f, y.off.add(linAtom(s.kappa))), depth+1)
}

// equalStars: every alternative of one agrees with every alternative of the
// other that is possible in the same iteration.
func equalStars(st *State, a, b *Star, depth int) string {
	if a.name == b.name {
		return ""
	}
	if !st.f.equal(linAtom(a.kappa), linAtom(b.kappa)) {
		return fmt.Sprintf("the repetitions %s and %s differ in number", a.name, b.name)
	}
	pairs := 0
	for _, p := range a.alts {
		for _, q := range b.alts {
			ren := newRenamer(b.kappa, a.kappa)
			// what q says of the first loop is about its end, not about this iteration
			ren.drop = loopCtx(a)
			g := p.f.clone()
			if !g.conj(ren.facts(q.f)) {
				if os.Getenv("DBGS") != "" {
					h := ren.facts(q.f)
					fmt.Println("B", p.f.b, h.b, len(h.sets), len(h.dyn))
					g := p.f.clone()
					for _, e := range sortedMap(h.iv) {
						one := newFacts()
						one.assumeIvl(e.l, e.iv)
						if !g.conj(one) {
							fmt.Println("CONFLICT", p.f, "WITH", one, "AFTER", g)
							break
						}
					}
				}
				continue
			}
			pairs++
			s := p.st.clone()
			s.f = g
			for o, v := range q.st.mem {
				if _, ok := s.mem[o]; !ok {
					s.mem[o] = v
				}
			}
			if w := equalSegs(s, p.chunks, ren.chunks(q.chunks), depth+1); w != "" {
				return fmt.Sprintf("in a repetition: %s (facts %s)", w, clip(g.String(), 300))
			}
		}
	}
	if pairs == 0 && (len(a.alts) > 0 || len(b.alts) > 0) {
		return fmt.Sprintf("the repetitions %s (%d alternatives) and %s (%d) have nothing in common", a.name, len(a.alts), b.name, len(b.alts))
	}
	return ""
}

// loopCtx is the context of the function a loop is in.
func loopCtx(s *Star) string {
	n := strings.TrimPrefix(s.kappa.name, "k<loop ")
	if i := strings.LastIndex(n, ":"); i > 0 {
		n = n[:i]
	}
	return n
}

// without drops the facts about names with the part.
func without(f *Facts, part string) *Facts {
	n := newFacts()
	for k, v := range f.b {
		if !strings.Contains(k, part) {
			n.b[k] = v
		}
	}
	for a, s := range f.sets {
		if !strings.Contains(a.name, part) {
			n.sets[a] = s
		}
	}
	for k, d := range f.dyn {
		if !strings.Contains(k, part) {
			n.dyn[k] = d
		}
	}
	for k, e := range f.iv {
		if !strings.Contains(k, part) {
			n.iv[k] = e
		}
	}
	for k, e := range f.ne {
		if !strings.Contains(k, part) {
			n.ne[k] = e
		}
	}
	return n
}

// theorems runs the theorems of a property.
func (c *Ctx) theorems(id string, tune func(e *Engine, fn *ssa.Function)) {
	sp := c.p.Pkgs[thmPath]
	if sp == nil {
		c.violate("coverage", "-", id, "the specification is missing")
		return
	}
	var fns []*ssa.Function
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, id+"_") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if only := os.Getenv("THM"); only != "" {
		var keep []*ssa.Function
		for _, f := range fns {
			if strings.HasSuffix(f.Name(), only) {
				keep = append(keep, f)
			}
		}
		fns = keep
	}
	stated := map[ssa.Instruction]*ssa.Function{}
	seen := map[ssa.Instruction]bool{}
	for _, fn := range fns {
		c.theorem(fn, tune, stated, seen)
	}
	// a statement that no state reaches says nothing
	for in, f := range stated {
		if !seen[in] {
			c.violate("coverage", c.p.pos(in.Pos()), funcName(f), "no state reaches this statement of the specification")
		}
	}
	c.count("specifications", len(fns))
	c.floor("specifications", 1)
	c.floor("statements", 1)
}

func (c *Ctx) theorem(fn *ssa.Function, tune func(e *Engine, fn *ssa.Function), stated map[ssa.Instruction]*ssa.Function, seen map[ssa.Instruction]bool) {
	relDepth = 3
	e := newEngine(c.p)
	e.setup = decoderSetup
	e.noJoin = true
	e.unrollAny = 6
	t := &thmRun{c: c, e: e, fn: fn, seen: map[ssa.Instruction]bool{}}
	t.install()
	if tune != nil {
		tune(e, fn)
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			c.violate("undecided", c.p.pos(fn.Pos()), funcName(fn), "%s", u.msg)
		}
	}()
	st := newState()
	before := len(c.viols)
	rets := e.callFn(st, fn, e.genericArgs(st, fn), nil, nil)
	if os.Getenv("DBGT") != "" {
		fmt.Println(fn.Name(), len(rets), "partitions", e.steps, "steps")
	}
	c.count("partitions", len(rets))
	done := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != thmPath {
					continue
				}
				if n := g.Name(); n != "Assert" && n != "Equal" && n != "Same" {
					visit(g)
					continue
				}
				c.count("statements", 1)
				stated[in] = f
				if t.seen[in] {
					seen[in] = true
				}
			}
		}
	}
	visit(fn)
	for _, o := range e.allObligations() {
		c.count("instructions that may panic", 1)
		if o.failed > 0 && !c.e2sub(e, o) {
			c.violate("no panic: "+o.kind, o.where, site(o.instr, o.fn), "%s (%s)", o.detail, o.expr)
		}
	}
	for f := range e.allFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != thmPath {
			c.count("functions", 1)
		}
	}
	if len(rets) == 0 && len(c.viols) == before {
		c.violate("coverage", c.p.pos(fn.Pos()), funcName(fn), "no state reaches the end of the specification")
	}
	c.sample("%s: %d partitions of the inputs", strings.TrimPrefix(funcName(fn), "verifthm."), len(rets))
}
