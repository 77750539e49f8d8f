package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something that happened on the way to a state.
type Event struct {
	kind  string // call, invoke, send, recv, close, lock, unlock, go, store, mapupdate, mapdelete, ...
	name  string
	args  []Value
	res   Value
	site  ssa.Instruction
	star  *Star
	held  string // locks held at that time
	chunk []*Chunk
}

func (ev *Event) key() string {
	if ev.star != nil {
		return ev.star.name
	}
	s := ev.kind + " " + ev.name + "("
	for i, a := range ev.args {
		if i > 0 {
			s += ","
		}
		if a != nil {
			s += a.vkey()
		}
	}
	return s + ")"
}

// State is one partition of the abstract states.
type State struct {
	mem    map[*Obj]Value
	gcAt   int // how many objects there are before those that are out of reach are dropped
	f      *Facts
	trace  []*Event
	held   map[string]int
	flags  map[string]Value
	counts map[string]int
	adv    map[string]int64 // bytes that were at least read from each buffer

	pending []pendingGo // goroutines that have not started
}

func newState() *State {
	return &State{mem: map[*Obj]Value{}, f: newFacts(), held: map[string]int{}, flags: map[string]Value{}, counts: map[string]int{}, adv: map[string]int64{}}
}

func (s *State) clone() *State {
	n := &State{gcAt: s.gcAt, mem: make(map[*Obj]Value, len(s.mem)), f: s.f.clone(), held: make(map[string]int, len(s.held)),
		flags: make(map[string]Value, len(s.flags)), counts: make(map[string]int, len(s.counts)), adv: make(map[string]int64, len(s.adv))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.counts {
		n.counts[k] = v
	}
	for k, v := range s.adv {
		n.adv[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.pending = s.pending[:len(s.pending):len(s.pending)]
	return n
}

func (s *State) heldKey() string {
	var ks []string
	for k, v := range s.held {
		if v > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *State) event(ev *Event) {
	ev.held = s.heldKey()
	s.trace = append(s.trace[:len(s.trace):len(s.trace)], ev)
}

func (s *State) next(what string) int {
	s.counts[what]++
	return s.counts[what]
}

// root gives the value of a whole object.
func (s *State) root(o *Obj) Value {
	if v, ok := s.mem[o]; ok {
		return v
	}
	var v Value
	switch {
	case o.init != nil:
		v = o.init
	case o.elem:
		v = &ArrV{elem: o.typ, base: o.name}
	case o.sym:
		if m, ok := o.typ.Underlying().(*types.Map); ok {
			_ = m
			v = &MapState{base: o.name}
		} else if _, ok := o.typ.Underlying().(*types.Chan); ok {
			v = &ChanState{closed: "?"}
		} else {
			v = symValue(o.name, o.typ)
		}
	default:
		v = zeroValue(o.typ)
	}
	s.mem[o] = v
	return v
}

func (s *State) getPath(v Value, path []Step) Value {
	for _, st := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.field(st.field)
		case *ArrV:
			if st.idx == nil {
				return &OpaqueV{"?"}
			}
			v = x.get(s.f, st.idx)
		default:
			return nil
		}
	}
	return v
}

func (s *State) setPath(v Value, path []Step, x Value) Value {
	if len(path) == 0 {
		return x
	}
	switch y := v.(type) {
	case *StructV:
		return y.with(path[0].field, s.setPath(y.field(path[0].field), path[1:], x))
	case *ArrV:
		if len(path) == 1 {
			return y.set(s.f, path[0].idx, x)
		}
		return y.set(s.f, path[0].idx, s.setPath(y.get(s.f, path[0].idx), path[1:], x))
	}
	return v
}

func (s *State) load(p *PtrV) Value { return s.getPath(s.root(p.obj), p.path) }

const noAdv = -1 << 40

// advance notes how much of a buffer was read when v takes the place of old.
func (s *State) advance(key string, old, v Value) {
	o, ok := old.(*BufV)
	n, ok2 := v.(*BufV)
	if !ok || !ok2 || o == n {
		if ok != ok2 {
			s.adv[key] = noAdv
		}
		return
	}
	switch {
	case len(o.cs) == 0 && len(n.cs) == 0:
	case len(n.cs) == 0:
		if lo := s.f.rng(chunksLen(o.cs)).lo; lo != nil && lo.IsInt64() && lo.Sign() > 0 {
			s.adv[key] += min(lo.Int64(), 1<<20)
		}
	case len(n.cs) == 1 && len(o.cs) == 1 && o.cs[0].arr != nil && n.cs[0].arr != nil &&
		o.cs[0].arr.vkey() == n.cs[0].arr.vkey() && s.f.equal(o.cs[0].end, n.cs[0].end):
		lo := s.f.rng(n.cs[0].off.sub(o.cs[0].off)).lo
		if lo == nil || !lo.IsInt64() || lo.Int64() < -1<<20 {
			s.adv[key] = noAdv
			return
		}
		s.adv[key] += min(lo.Int64(), 1<<20)
	default:
		s.adv[key] = noAdv
	}
}

func (s *State) advKey(o *Obj, path []Step) string {
	k := o.name
	for _, p := range path {
		if p.idx != nil {
			k += "[" + p.idx.key + "]"
		} else {
			k += "." + strconv.Itoa(p.field)
		}
	}
	return k
}

func (s *State) store(p *PtrV, v Value) {
	if _, ok := v.(*BufV); ok {
		s.advance(s.advKey(p.obj, p.path), s.load(p), v)
	}
	if p.obj.may {
		// other objects of this type may be the same location
		for o := range s.mem {
			if o != p.obj && o.elem == p.obj.elem && types.Identical(o.typ, p.obj.typ) {
				s.mem[o] = s.havocValue(s.mem[o], o, "may")
			}
		}
	}
	s.mem[p.obj] = s.setPath(s.root(p.obj), p.path, v)
}

var freshN int

func fresh(what string) string {
	freshN++
	return fmt.Sprintf("%s~%d", what, freshN)
}

func (s *State) havocValue(v Value, o *Obj, why string) Value {
	n := fresh(why + ":" + o.name)
	for k := range s.adv {
		if strings.HasPrefix(k, o.name) {
			s.adv[k] = noAdv
		}
	}
	switch v.(type) {
	case *MapState:
		return &MapState{base: n}
	case *ChanState:
		return &ChanState{closed: "?"}
	}
	if o.elem {
		return &ArrV{elem: o.typ, base: n}
	}
	return symValue(n, o.typ)
}

// --- decisions

func (s *State) decide(b *BoolV) int {
	switch {
	case b.isConst:
		if b.val {
			return 1
		}
		return 0
	case b.l != nil:
		return s.f.decideCmp(b.l, b.op)
	}
	if v, ok := s.f.b[b.name]; ok {
		if v == b.val {
			return 1
		}
		return 0
	}
	return -1
}

func (s *State) assume(b *BoolV, want bool) bool {
	switch s.decide(b) {
	case 1:
		return want
	case 0:
		return !want
	}
	if !want {
		b = b.not()
	}
	if b.l != nil {
		return s.f.assumeCmp(b.l, b.op)
	}
	s.f.b[b.name] = b.val
	if b.val && strings.HasPrefix(b.name, "nil(") {
		if a, ok := atoms["len("+b.name[4:]]; ok {
			return s.f.assumeCmp(linAtom(a), opEQ)
		}
	}
	return true
}

func (s *State) nilCond(v Value) *BoolV {
	isNil, name := false, ""
	switch x := v.(type) {
	case *PtrV:
		isNil, name = x.isNil, x.nilName
	case *SliceV:
		isNil, name = x.isNil, x.nilName
	case *MapV:
		isNil, name = x.isNil, x.nilName
	case *ChanV:
		isNil, name = x.isNil, x.nilName
	case *FuncV:
		isNil = x.isNil
		if x.fn == nil && !isNil {
			name = "nil(" + x.name + ")"
		}
	case *IfaceV:
		isNil = x.isNil
		if !isNil && x.t == nil && !x.nn {
			if d := s.f.dyn[x.name]; d == nil || d.is == nil {
				name = "nil(" + x.name + ")"
			}
		}
	case *OpaqueV:
		name = "nil(" + x.name + ")"
	}
	if isNil {
		return boolC(true)
	}
	if name == "" {
		return boolC(false)
	}
	return boolAtom(name)
}

// wrap brings a value into the range of an integer type.
func (s *State) wrap(l *Lin, w int, signed bool) *Lin {
	t := typeIvl(w, signed)
	if l.isConst() {
		if (ivl{l.c, l.c}).within(t) {
			return l
		}
		m := new(big.Int).Mod(l.c, pow2(w))
		if signed && m.Bit(w-1) == 1 {
			m.Sub(m, pow2(w))
		}
		return linBig(m)
	}
	if s.f.rng(l).within(t) {
		return l
	}
	if b := l.bitsOf(w); b != nil {
		return linFromBits(b, signed)
	}
	if r := s.f.reduce(l); r.key != l.key {
		return s.wrap(r, w, signed)
	}
	sg := "u"
	if signed {
		sg = "s"
	}
	a := mkAtom(fmt.Sprintf("wrap%s%d(%s)", sg, w, l.key), w, signed)
	valAtoms[a] = l
	return linAtom(a)
}
