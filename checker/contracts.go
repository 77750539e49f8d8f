package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A contract is what the analysis of a function for all arguments gives for
// its callers: the locations it may change, and per way to return what is
// known about these and about the results. It stands for the body where the
// function is expensive to look into again at each call.
type contract struct {
	fn     *ssa.Function
	ok     bool
	why    string
	steps  int
	groups []*cgroup
	locs   []cloc
	origin map[string]cplace // where the values before the call come from
}

// cplace is a location reached from a parameter; -1 follows a pointer.
type cplace struct {
	param int
	path  []int
}

// before gives what is at the place before the call.
func (p cplace) before(st *State, args []Value) Value {
	v := args[p.param]
	for _, s := range p.path {
		switch x := v.(type) {
		case *PtrV:
			if s >= 0 || x.isNil || x.obj == nil {
				return nil
			}
			v = st.load(x)
		case *StructV:
			if s < 0 {
				return nil
			}
			v = x.field(s)
		default:
			return nil
		}
	}
	return v
}

type cloc struct {
	obj   *Obj
	param int
	path  []int // -1: what the pointer points to; else a field
	field int   // a field of the struct there, -1: all
	typ   types.Type
}

type cgroup struct {
	st  *State
	v   Value
	off *Lin // -
}

// contracts of a program, shared by the analyses of its functions.
type contractSet struct {
	m     map[*ssa.Function]*contract
	min   int // a function with fewer steps is looked into
	max   int
	stack int
}

func (e *Engine) contractFor(fn *ssa.Function) *contract {
	cs := e.contracts
	if c, ok := cs.m[fn]; ok {
		return c
	}
	c := &contract{fn: fn}
	cs.m[fn] = c // recursion: not usable while it is being made
	c.why = "recursive"
	sub := newEngine(e.prog)
	sub.contracts = cs
	sub.coarse = e.coarse
	sub.setup = e.setup
	sub.override = e.override
	sub.opaque = e.opaque
	sub.onMake = e.onMake
	sub.infos = e.infos
	sub.globals, sub.initVals, sub.gdone = e.globals, e.initVals, e.gdone
	sub.maxSteps = cs.max
	st := newState()
	args := sub.genericArgs(st, fn)
	var rets []ret
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(undecided)
				if !ok {
					panic(r)
				}
				c.why = u.msg
				rets = nil
			}
		}()
		c.why = ""
		rets = sub.callFn(st, fn, args, nil, nil)
	}()
	c.steps = sub.steps
	e.subSteps += sub.steps + sub.subSteps
	e.subs = append(e.subs, sub)
	e.subs = append(e.subs, sub.subs...)
	if c.why != "" {
		return c
	}
	if c.steps < cs.min {
		c.why = "small"
		return c
	}
	for _, o := range sub.oblSeq {
		if o.failed > 0 {
			c.why = "an obligation depends on the caller: " + o.kind + " " + o.where
			return c
		}
	}
	// where are the objects that it changed?
	st0 := newState()
	type place = cplace
	c.origin = map[string]cplace{}
	where := map[*Obj]place{}
	var walk func(v Value, p place, depth int)
	walk = func(v Value, p place, depth int) {
		if depth > 4 {
			return
		}
		if k := st0.nilCond(v); !k.isConst {
			c.origin[k.name] = p
		} else if i, ok := v.(*IfaceV); ok {
			c.origin["nil("+i.name+")"] = p
		} else if b, ok := v.(*BoolV); ok && !b.isConst && b.name != "" {
			c.origin[b.name] = p
		}
		switch x := v.(type) {
		case *PtrV:
			if x.obj == nil || len(x.path) > 0 || !x.obj.sym {
				return
			}
			if _, ok := where[x.obj]; ok {
				return
			}
			q := place{p.param, append(append([]int{}, p.path...), -1)}
			where[x.obj] = q
			if isBufferT(x.obj.typ) {
				return
			}
			walk((&State{mem: map[*Obj]Value{}}).root(x.obj), q, depth+1)
		case *StructV:
			for i := 0; i < x.t.NumFields(); i++ {
				walk(x.field(i), place{p.param, append(append([]int{}, p.path...), i)}, depth+1)
			}
		case *SliceV:
			if x.ptr != nil && x.ptr.obj.sym {
				where[x.ptr.obj] = place{p.param, append(append([]int{}, p.path...), -1)}
			}
		case *MapV:
			if x.obj != nil && x.obj.sym {
				where[x.obj] = place{p.param, append(append([]int{}, p.path...), -1)}
			}
		}
	}
	for i, a := range args {
		walk(a, place{param: i}, 0)
	}
	seen := map[string]bool{}
	add := func(l cloc) {
		k := fmt.Sprint(l.obj.name, l.field)
		if !seen[k] {
			seen[k] = true
			c.locs = append(c.locs, l)
		}
	}
	for _, r := range rets {
		if len(r.st.held) > 0 && r.st.heldKey() != "" {
			c.why = "returns with a lock"
			return c
		}
		for o, v := range r.st.mem {
			if !o.sym && o.glob == nil || r.st.isDefault(o, v) {
				continue
			}
			p, ok := where[o]
			if !ok {
				if v.vkey() == (&State{mem: map[*Obj]Value{}}).root(o).vkey() {
					continue
				}
				c.why = "changes " + o.name
				return c
			}
			if s, ok := v.(*StructV); ok && s.base == o.name {
				for i := 0; i < s.t.NumFields(); i++ {
					if s.field(i).vkey() != defaultField(s, i).vkey() {
						add(cloc{obj: o, param: p.param, path: p.path, field: i, typ: s.t.Field(i).Type()})
					}
				}
				continue
			}
			add(cloc{obj: o, param: p.param, path: p.path, field: -1, typ: o.typ})
		}
	}
	sort.Slice(c.locs, func(i, j int) bool {
		return c.locs[i].obj.name < c.locs[j].obj.name || c.locs[i].obj == c.locs[j].obj && c.locs[i].field < c.locs[j].field
	})
	// one group per signature
	groups := map[string]int{}
	var out []ret
	for _, r := range rets {
		k := sub.signature(r)
		if i, ok := groups[k]; ok {
			out[i] = lossyJoin(out[i], r)
			continue
		}
		groups[k] = len(out)
		out = append(out, r)
	}
	for _, r := range out {
		c.groups = append(c.groups, &cgroup{st: r.st, v: r.v})
	}
	c.ok = true
	return c
}

// genericArgs are arguments about which only the assumptions of the setup are made.
func (e *Engine) genericArgs(st *State, fn *ssa.Function) []Value {
	var args []Value
	for i, q := range fn.Params {
		name := q.Name()
		if _, ok := q.Type().Underlying().(*types.Basic); ok {
			name += ":" + shortType(q.Type())
		}
		v := symValue(name, q.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			v = nonNil(v)
		} else if _, ok := q.Type().Underlying().(*types.Pointer); ok {
			v = nonNil(v)
		}
		args = append(args, v)
	}
	if e.setup != nil {
		e.setup(st, fn, args)
	}
	return args
}

// apply gives the states after a call according to the contract.
func (c *contract) apply(cl *call) []outcome {
	var outs []outcome
	for _, g := range c.groups {
		st := cl.st.clone()
		ok := true
		same := map[string]*IfaceV{} // one unknown interface value stays one
		orig := func(gv Value) Value {
			key := ""
			if x, ok := gv.(*IfaceV); ok && !x.isNil && x.t == nil && x.name != "" && g.st.decide(g.st.nilCond(x)) < 0 {
				if _, ok := c.origin["nil("+x.name+")"]; !ok {
					if same[x.name] == nil {
						same[x.name] = &IfaceV{name: fresh("ret " + cl.name), impl: x.impl}
					}
					return same[x.name]
				}
			}
			switch x := gv.(type) {
			case *IfaceV:
				if !x.isNil && x.t == nil {
					key = "nil(" + x.name + ")"
				}
			case *PtrV:
				key = x.nilName
			case *BoolV:
				if x.name != "" && x.val {
					key = x.name
				}
			}
			if p, ok := c.origin[key]; ok && key != "" {
				return p.before(cl.st, cl.args)
			}
			return nil
		}
		// is this way possible here?
		for k, want := range g.st.f.b {
			p, known := c.origin[k]
			if !known {
				continue
			}
			v := p.before(cl.st, cl.args)
			if v == nil {
				continue
			}
			cond, isB := v.(*BoolV)
			if !isB {
				cond = cl.st.nilCond(v)
			}
			if !st.assume(cond, want) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, l := range c.locs {
			gv := g.st.root(l.obj)
			if l.field >= 0 {
				s := gv.(*StructV)
				gv = s.field(l.field)
				if gv.vkey() == defaultField(s, l.field).vkey() {
					continue
				}
			} else if g.st.isDefault(l.obj, gv) {
				continue
			}
			if !c.change(st, cl.args[l.param], l, g, gv, orig) {
				panic(undecided{"the effect of " + funcName(c.fn) + " on " + l.obj.name + " can not be located"})
			}
		}
		if v := g.st.flags["short"]; v != nil {
			if b, ok := st.flags["short"].(*BoolV); !ok || st.decide(b) != 1 {
				switch d := g.st.decide(v.(*BoolV)); {
				case d == 1:
					st.flags["short"] = boolC(true)
				case d < 0:
					st.flags["short"] = translated(v, same)
				}
			}
		}
		outs = append(outs, outcome{st, abstracted(g.st, st, g.v, cl.sig.Results(), cl.name, orig)})
	}
	return outs
}

// translated is the condition v about values that got new names.
func translated(v Value, same map[string]*IfaceV) Value {
	b, ok := v.(*BoolV)
	if !ok || b.isConst {
		return v
	}
	for n, x := range same {
		if b.name == "nil("+n+")" {
			return &BoolV{name: "nil(" + x.name + ")", val: b.val}
		}
	}
	return boolAtom(fresh("condition in a callee"))
}

func (c *contract) change(st *State, v Value, l cloc, g *cgroup, gv Value, orig func(Value) Value) bool {
	var loc *PtrV
	path := l.path
	for i, s := range path {
		last := i == len(path)-1
		if s >= 0 {
			sv, ok := v.(*StructV)
			if !ok {
				return false
			}
			v = sv.field(s)
			if loc != nil {
				loc = &PtrV{obj: loc.obj, path: append(append([]Step{}, loc.path...), Step{field: s})}
			}
			continue
		}
		switch x := v.(type) {
		case *PtrV:
			if x.isNil || x.obj == nil {
				return true // not there
			}
			loc = x
			v = st.load(x)
		case *SliceV:
			if !last {
				return false
			}
			if x.ptr != nil {
				st.mem[x.ptr.obj] = st.havocValue(st.root(x.ptr.obj), x.ptr.obj, "by "+c.fn.Name())
			}
			return true
		case *MapV:
			if !last {
				return false
			}
			if !x.isNil {
				st.mem[x.obj] = &MapState{base: fresh("by " + c.fn.Name())}
			}
			return true
		default:
			return false
		}
	}
	if loc == nil {
		return false
	}
	if l.field >= 0 {
		loc = &PtrV{obj: loc.obj, path: append(append([]Step{}, loc.path...), Step{field: l.field})}
	}
	if v := orig(gv); v != nil {
		st.store(loc, v)
		return true
	}
	st.store(loc, abstractOver(g.st, st, gv, st.load(loc), l.typ, c.fn.Name()))
	return true
}

func abstracted(gs, st *State, v Value, t *types.Tuple, name string, orig func(Value) Value) Value {
	one := func(v Value, t types.Type) Value {
		if o := orig(v); o != nil {
			return o
		}
		return abstractOver(gs, st, v, nil, t, name)
	}
	if tv, ok := v.(TupleV); ok {
		out := TupleV{}
		for i := range tv {
			out = append(out, one(tv[i], t.At(i).Type()))
		}
		return out
	}
	return one(v, t.At(0).Type())
}

// abstractOver is a new unknown value of which the ranges and nil-ness that gv
// has in the state gs are known; old is what was there before.
func abstractOver(gs, st *State, gv, old Value, t types.Type, name string) Value {
	nm := fresh("ret " + name)
	switch x := gv.(type) {
	case *Lin:
		w, s, ok := intInfo(t)
		if !ok {
			break
		}
		l := freshIn(st, nm, w, s, gs.f.rng(x))
		st.f.setByte(l, gs.f.byteSet(x))
		return l
	case *BoolV:
		if d := gs.decide(x); d >= 0 {
			return boolC(d == 1)
		}
		return boolAtom(nm)
	case *BufV:
		// a suffix of what was there before?
		if o, ok := old.(*BufV); ok && len(o.cs) == 1 && o.cs[0].arr != nil && len(x.cs) == 1 && x.cs[0].arr != nil &&
			x.cs[0].arr.base != "" && len(x.cs[0].arr.ov) == 0 && x.cs[0].end.key == lenAtom("len("+x.cs[0].arr.base+")").key {
			k := gs.f.rng(x.cs[0].off)
			if k.lo != nil && k.lo.Sign() >= 0 {
				adv := linAtom(mkAtomRange(fresh("read by "+name), 48, false, k.lo, nil))
				oc := o.cs[0]
				no := oc.off.add(adv)
				st.f.assumeCmp(no.sub(oc.end), opLE)
				return &BufV{cs: []*Chunk{{arr: oc.arr, off: no, end: oc.end}}, src: o.src, anchors: o.anchors}
			}
		}
		if o, ok := old.(*BufV); ok && len(x.cs) == 0 {
			return &BufV{src: o.src, anchors: o.anchors}
		}
		if o, ok := old.(*BufV); ok && len(o.cs) == 0 && len(x.cs) <= 1 {
			// nothing left to read: only if the function can not add
			if len(x.cs) == 0 || x.cs[0].arr != nil && x.cs[0].arr.base != "" && x.cs[0].end.key == lenAtom("len("+x.cs[0].arr.base+")").key {
				return o
			}
		}
		return symValue(nm, t)
	case *IfaceV:
		switch gs.decide(gs.nilCond(x)) {
		case 1:
			return &IfaceV{isNil: true}
		case 0:
			if _, ok := t.Underlying().(*types.Interface); ok {
				return &IfaceV{name: nm, nn: true}
			}
		}
	case *PtrV:
		v := symValue(nm, t)
		switch gs.decide(gs.nilCond(x)) {
		case 1:
			return nilValue(t)
		case 0:
			return nonNil(v)
		}
		return v
	case *SliceV:
		v, ok := symValue(nm, t).(*SliceV)
		if !ok {
			break
		}
		constrain(st, v.n, gs.f.rng(x.n))
		return v
	case *StrV:
		v, ok := symValue(nm, t).(*StrV)
		if !ok {
			break
		}
		constrain(st, v.n, gs.f.rng(x.n))
		return v
	case *MapV, *ChanV:
		v := symValue(nm, t)
		if gs.decide(gs.nilCond(x)) == 0 {
			return nonNil(v)
		}
		return v
	case *StructV:
		v, ok := symValue(nm, t).(*StructV)
		if !ok {
			break
		}
		for i := 0; i < x.t.NumFields(); i++ {
			v = v.with(i, abstractOver(gs, st, x.field(i), nil, x.t.Field(i).Type(), name))
		}
		return v
	}
	return symValue(nm, t)
}

func freshIn(st *State, name string, w int, signed bool, iv ivl) *Lin {
	l := linAtom(mkAtom(name, w, signed))
	constrain(st, l, iv)
	return l
}

func constrain(st *State, l *Lin, iv ivl) {
	if iv.hi != nil {
		st.f.assumeCmp(l.sub(linBig(iv.hi)), opLE)
	}
	if iv.lo != nil {
		st.f.assumeCmp(linBig(iv.lo).sub(l), opLE)
	}
}

var _ = big.NewInt
