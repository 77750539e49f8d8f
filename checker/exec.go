package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets functions over the abstract domain. Every block is
// analysed for a set of partitions; loops are summarised by a fixpoint.
type Engine struct {
	storesNonNil map[*ssa.Store]bool // the values of these are not to be nil
	contexts     map[string]ctxInfo  // by their Done channel

	prog   *Program
	obl    map[string]*Obligation
	oblSeq []*Obligation
	quiet  int // > 0: inside a fixpoint iteration that is not the last one

	opaque      map[string]bool // functions that are only recorded as events
	override    map[string]model
	seq         bool // a goroutine runs where it is started
	precise     bool // channels have exactly the content that the analysed code gives them
	late        bool // a goroutine runs when the one that starts it waits
	inGo        int
	waitDepth   int
	parked      []*State
	steps       int
	maxSteps    int
	funcs       map[*ssa.Function]int // functions analysed and how often
	blocks      map[*ssa.BasicBlock]bool
	calls       map[ssa.Instruction]bool
	loopsN      map[*Loop]*loopResult
	infos       map[*ssa.Function]*loopInfo
	globals     map[*ssa.Global]Value
	gdone       bool
	stack       []*ssa.Function
	goStates    []goState
	collectGo   bool
	trackStores bool
	notes       map[string]int
	unroll      int
	unrollParts int
	maxParts    int
	onLoop      func(l *Loop, r *loopResult)
	stackKey    string
	pureInit    bool
	unrollAny   int // iterations of loops whose header does not test
	noJoin      bool
	coarse      int
	curMark     int
	warm        map[string]*warmLoop
	contracts   *contractSet
	setup       func(st *State, fn *ssa.Function, args []Value)
	subs        []*Engine // analyses made for contracts
	subSteps    int
	initVals    map[*ssa.Global]Value
	onLock      func(st *State, p *PtrV, kind string)
	onMake      func(st *State, instr ssa.Instruction, n *Lin)
}

type goState struct {
	st   *State
	fn   *FuncV
	args []Value
	site ssa.Instruction
}

// Obligation is a proof obligation at an instruction.
type Obligation struct {
	kind   string
	instr  ssa.Instruction
	where  string
	fn     string
	ok     int
	failed int
	inv    int // held because of a field invariant
	detail string
	expr   string
}

type undecided struct{ msg string }

func newEngine(p *Program) *Engine {
	return &Engine{prog: p, obl: map[string]*Obligation{}, opaque: map[string]bool{}, override: map[string]model{}, maxSteps: 40000000,
		funcs: map[*ssa.Function]int{}, blocks: map[*ssa.BasicBlock]bool{}, calls: map[ssa.Instruction]bool{},
		loopsN: map[*Loop]*loopResult{}, infos: map[*ssa.Function]*loopInfo{}, globals: map[*ssa.Global]Value{}, initVals: map[*ssa.Global]Value{}, notes: map[string]int{},
		unroll: 24, unrollParts: 40, maxParts: 3000}
}

// oblige records if an obligation holds in a partition.
func (e *Engine) oblige(st *State, kind string, instr ssa.Instruction, ok bool, detail string) {
	if e.quiet > 0 {
		return
	}
	key := fmt.Sprintf("%s@%p", kind, instr)
	o := e.obl[key]
	if o == nil {
		fn := ""
		pos := token.NoPos
		expr := ""
		if instr != nil {
			fn = funcName(instr.Parent())
			pos = instrPos(instr)
			expr = instr.String()
		}
		o = &Obligation{kind: kind, instr: instr, where: e.prog.pos(pos), fn: fn, expr: expr}
		e.obl[key] = o
		e.oblSeq = append(e.oblSeq, o)
	}
	if !ok && instr != nil && e.prog.invariants().byInvariant(kind, instr) {
		o.inv++
		ok = true
	}
	if ok {
		o.ok++
		return
	}
	o.failed++
	if o.detail == "" {
		f := st.f.String()
		if len(f) > 700 {
			f = f[:700] + "..."
		}
		o.detail = detail + " | path " + e.pathString() + " | facts " + f
	}
}

func (e *Engine) pathString() string {
	var s []string
	for _, f := range e.stack {
		s = append(s, funcName(f))
	}
	return strings.Join(s, " > ")
}

func funcName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modulePath+"/", ""), modulePath, "bacnet")
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if v, ok := i.(ssa.Value); ok {
		if r := v.Referrers(); r != nil {
			for _, x := range *r {
				if x.Pos().IsValid() {
					return x.Pos()
				}
			}
		}
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	if b := i.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
	}
	return i.Parent().Pos()
}

type ret struct {
	st *State
	v  Value
}

type deferred struct {
	fn    *FuncV
	instr *ssa.Defer
	args  []Value
}

type bstate struct {
	st     *State
	regs   map[ssa.Value]Value
	defers []*deferred
}

func (b *bstate) fork() *bstate {
	r := make(map[ssa.Value]Value, len(b.regs))
	for k, v := range b.regs {
		r[k] = v
	}
	return &bstate{st: b.st.clone(), regs: r, defers: b.defers[:len(b.defers):len(b.defers)]}
}

type frame struct {
	e      *Engine
	fn     *ssa.Function
	ctx    string
	info   *loopInfo
	rets   []ret
	binds  []Value
	loopIn []*Loop

	mark int // the first atom made since the call

	watchHeader, headerUndecided *ssa.BasicBlock
}

type edgeState struct {
	to *ssa.BasicBlock
	bs *bstate
}

// callFn analyses a call of fn.
func (e *Engine) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, site ssa.Instruction) []ret {
	if len(fn.Blocks) == 0 {
		panic(undecided{"no body: " + fn.String()})
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 3 || len(e.stack) > 60 {
		panic(undecided{"recursion of " + funcName(fn)})
	}
	e.funcs[fn]++
	e.stack = append(e.stack, fn)
	oldKey := e.stackKey
	if site != nil {
		e.stackKey = fmt.Sprintf("%s/%s.%d", oldKey, fn.Name(), siteIndex(site))
	} else {
		e.stackKey = oldKey + "/" + fn.Name()
	}
	fr := &frame{e: e, fn: fn, ctx: e.stackKey, info: e.loopInfo(fn), binds: binds, mark: len(atomList)}
	bs := &bstate{st: st, regs: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		bs.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			bs.regs[p] = binds[i]
		} else {
			bs.regs[p] = symValue("free "+p.Name(), p.Type())
		}
	}
	before := make(map[*Obj]bool, len(st.mem))
	for o := range st.mem {
		before[o] = true
	}
	pending := map[*ssa.BasicBlock][]*bstate{fn.Blocks[0]: {bs}}
	fr.runRegion(fr.info.rpo, nil, pending)
	e.stack = e.stack[:len(e.stack)-1]
	e.stackKey = oldKey
	e.curMark = fr.mark
	n := len(fr.rets)
	rs := e.mergeRets(fr.rets, before)
	if dbgOn && len(rs) > 0 {
		dbg("%s%s: %d -> %d partitions, %d facts, %d objs, %d steps", strings.Repeat(" ", len(e.stack)), funcName(fn), n, len(rs), len(rs[0].st.f.iv), len(rs[0].st.mem), e.steps)
	}
	return rs
}

var siteIdx = map[ssa.Instruction]int{}
var siteCnt = map[*ssa.Function]int{}

func siteIndex(i ssa.Instruction) int {
	if n, ok := siteIdx[i]; ok {
		return n
	}
	f := i.Parent()
	siteCnt[f]++
	siteIdx[i] = siteCnt[f]
	return siteCnt[f]
}

func (fr *frame) runRegion(blocks []*ssa.BasicBlock, L *Loop, pending map[*ssa.BasicBlock][]*bstate) (exits []edgeState, backs []*bstate) {
	e := fr.e
	dispatch := func(es edgeState) {
		if L != nil && es.to == L.header {
			backs = append(backs, es.bs)
		} else if L != nil && !L.blocks[es.to] {
			exits = append(exits, es)
		} else {
			pending[es.to] = append(pending[es.to], es.bs)
		}
	}
	for _, b := range blocks {
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		delete(pending, b)
		in = fr.merge(b, in)
		if inner := fr.info.byHeader[b]; inner != nil && inner != L {
			for _, es := range fr.runLoop(inner, in) {
				dispatch(es)
			}
			continue
		}
		for _, bs := range in {
			for _, es := range fr.execBlock(b, bs) {
				dispatch(es)
			}
		}
		if len(fr.rets) > e.maxParts*8 {
			panic(undecided{fmt.Sprintf("too many partitions in %s", funcName(fr.fn))})
		}
	}
	return
}

func (fr *frame) enter(from, to *ssa.BasicBlock, bs *bstate) edgeState {
	var idx = -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type pv struct {
		p *ssa.Phi
		v Value
	}
	var pvs []pv
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{p, fr.val(bs, p.Edges[idx])})
	}
	for _, x := range pvs {
		bs.regs[x.p] = x.v
	}
	// forget what is not used any more
	live := fr.info.liveIn[to]
	for r := range bs.regs {
		if !live[r] {
			delete(bs.regs, r)
		}
	}
	return edgeState{to, bs}
}

// val is the abstract value of an operand.
func (fr *frame) val(bs *bstate, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return &PtrV{obj: fr.e.globalObj(x)}
	case *ssa.Builtin:
		return &OpaqueV{"builtin " + x.Name()}
	}
	if r, ok := bs.regs[v]; ok {
		return r
	}
	return symValue("undef "+fr.ctx+v.Name(), v.Type())
}

func (fr *frame) intVal(bs *bstate, v ssa.Value) *Lin {
	x := fr.val(bs, v)
	if l, ok := x.(*Lin); ok {
		return l
	}
	w, s, ok := intInfo(v.Type())
	if !ok {
		w, s = 64, true
	}
	return linAtom(mkAtom(fresh("int"), w, s))
}

func (fr *frame) execBlock(b *ssa.BasicBlock, start *bstate) []edgeState {
	e := fr.e
	e.blocks[b] = true
	var out []edgeState
	type item struct {
		bs *bstate
		i  int
	}
	work := []item{{start, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		bs := it.bs
		i := it.i
	instrs:
		for ; i < len(b.Instrs); i++ {
			e.steps++
			if e.steps > e.maxSteps {
				panic(undecided{"analysis budget exceeded in " + funcName(fr.fn)})
			}
			if e.steps&0xff == 0 && overtime() {
				panic(undecided{"time for the analysis exceeded in " + funcName(fr.fn)})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				out = append(out, fr.enter(b, b.Succs[0], bs))
				break instrs
			case *ssa.If:
				c, _ := fr.val(bs, in.Cond).(*BoolV)
				if c == nil {
					c = boolAtom(fresh("cond"))
				}
				switch bs.st.decide(c) {
				case 1:
					out = append(out, fr.enter(b, b.Succs[0], bs))
				case 0:
					out = append(out, fr.enter(b, b.Succs[1], bs))
				default:
					if fr.watchHeader == b {
						fr.headerUndecided = b
						return nil
					}
					no := bs.fork()
					if bs.st.assume(c, true) {
						fr.refine(bs, in.Cond, true)
						out = append(out, fr.enter(b, b.Succs[0], bs))
					}
					if no.st.assume(c, false) {
						fr.refine(no, in.Cond, false)
						out = append(out, fr.enter(b, b.Succs[1], no))
					}
				}
				break instrs
			case *ssa.Return:
				var v Value
				switch len(in.Results) {
				case 0:
					v = TupleV{}
				case 1:
					v = fr.val(bs, in.Results[0])
				default:
					var t TupleV
					for _, r := range in.Results {
						t = append(t, fr.val(bs, r))
					}
					v = t
				}
				fr.rets = append(fr.rets, ret{bs.st, v})
				break instrs
			case *ssa.Panic:
				e.oblige(bs.st, "panic", in, false, "explicit panic can be reached")
				break instrs
			default:
				next := fr.execInstr(bs, in)
				if len(next) == 0 {
					break instrs
				}
				for _, n := range next[1:] {
					work = append(work, item{n, i + 1})
				}
				bs = next[0]
			}
		}
	}
	return out
}

// refine: nothing but the facts is refined.
func (fr *frame) refine(bs *bstate, cond ssa.Value, val bool) {}

func one(bs *bstate) []*bstate { return []*bstate{bs} }

// deref checks that a pointer is not nil.
func (fr *frame) deref(bs *bstate, v Value, in ssa.Instruction) (*PtrV, bool) {
	p, ok := v.(*PtrV)
	if !ok {
		// a pointer that nothing is known about
		fr.e.oblige(bs.st, "nil", in, false, "unknown pointer "+vk(v))
		t := types.Type(types.Typ[types.Int])
		if len(in.Operands(nil)) > 0 {
			if pt, ok := (*in.Operands(nil)[0]).Type().Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		return &PtrV{obj: symObj(fresh("unknown"), t, false)}, true
	}
	c := bs.st.nilCond(p)
	switch bs.st.decide(c) {
	case 1:
		fr.e.oblige(bs.st, "nil", in, false, "nil pointer is dereferenced")
		return nil, false
	case -1:
		fr.e.oblige(bs.st, "nil", in, false, "pointer may be nil: "+c.name)
		if !bs.st.assume(c, false) {
			return nil, false
		}
	default:
		fr.e.oblige(bs.st, "nil", in, true, "")
	}
	return p, true
}

func vk(v Value) string {
	if v == nil {
		return "<none>"
	}
	return v.vkey()
}

func (e *Engine) newObj(st *State, ctx, what string, t types.Type, elem bool) *Obj {
	name := ctx + ":" + what
	n := st.next(name)
	if n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	key := "new " + name + "|" + t.String()
	if o, ok := symObjs[key]; ok {
		return o
	}
	o := &Obj{name: name, typ: t, elem: elem}
	symObjs[key] = o
	return o
}

func (fr *frame) set(bs *bstate, in ssa.Value, v Value) []*bstate {
	bs.regs[in] = v
	return []*bstate{bs}
}

func (fr *frame) execInstr(bs *bstate, instr ssa.Instruction) []*bstate {
	e := fr.e
	st := bs.st
	switch in := instr.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(st, fr.ctx, fmt.Sprintf("%s%d", in.Name(), 0), t, false)
		st.mem[o] = zeroValue(t)
		return fr.set(bs, in, &PtrV{obj: o})

	case *ssa.BinOp:
		return fr.binop(bs, in)

	case *ssa.UnOp:
		return fr.unop(bs, in)

	case *ssa.Store:
		p, ok := fr.deref(bs, fr.val(bs, in.Addr), in)
		if !ok {
			return nil
		}
		v := fr.val(bs, in.Val)
		if e.storesNonNil[in] {
			e.oblige(st, "stored", in, st.decide(st.nilCond(v)) == 0, "nil may be stored")
		}
		if e.trackStores {
			st.event(&Event{kind: "store", name: p.vkey(), args: []Value{p, v}, site: in})
		}
		st.store(p, v)
		return one(bs)

	case *ssa.FieldAddr:
		p, ok := fr.deref(bs, fr.val(bs, in.X), in)
		if !ok {
			return nil
		}
		path := append(p.path[:len(p.path):len(p.path)], Step{field: in.Field})
		return fr.set(bs, in, &PtrV{obj: p.obj, path: path})

	case *ssa.Field:
		if s, ok := fr.val(bs, in.X).(*StructV); ok {
			return fr.set(bs, in, s.field(in.Field))
		}
		return fr.set(bs, in, symValue(fresh("field"), in.Type()))

	case *ssa.IndexAddr:
		return fr.indexAddr(bs, in)

	case *ssa.Index:
		x := fr.val(bs, in.X)
		idx := fr.intVal(bs, in.Index)
		switch a := x.(type) {
		case *ArrV:
			n := in.X.Type().Underlying().(*types.Array).Len()
			if !fr.bounds(bs, in, idx, linC(n)) {
				return nil
			}
			return fr.set(bs, in, a.get(st.f, idx))
		case *StrV:
			if !fr.bounds(bs, in, idx, a.n) {
				return nil
			}
			return fr.set(bs, in, strByte(st, a, idx))
		}
		return fr.set(bs, in, symValue(fresh("index"), in.Type()))

	case *ssa.Slice:
		return fr.slice(bs, in)

	case *ssa.MakeSlice:
		n := fr.intVal(bs, in.Len)
		c := fr.intVal(bs, in.Cap)
		ok := st.f.decideCmp(n.neg(), opLE) == 1 && st.f.decideCmp(n.sub(c), opLE) == 1 &&
			st.f.decideCmp(c.sub(linBig(pow2(47))), opLE) == 1
		e.oblige(st, "make", in, ok, "length of make may be out of range: "+n.key)
		if !ok {
			if !st.f.assumeCmp(n.neg(), opLE) || !st.f.assumeCmp(n.sub(c), opLE) {
				return nil
			}
		}
		if e.onMake != nil && e.quiet == 0 {
			e.onMake(st, in, c)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := e.newObj(st, fr.ctx, in.Name(), et, true)
		st.mem[o] = &ArrV{elem: et}
		return fr.set(bs, in, &SliceV{ptr: &PtrV{obj: o}, off: linC(0), n: n, cap: c})

	case *ssa.MakeMap:
		t := in.Type().Underlying()
		o := e.newObj(st, fr.ctx, in.Name(), in.Type(), false)
		st.mem[o] = &MapState{}
		return fr.set(bs, in, &MapV{obj: o, typ: t.(*types.Map)})

	case *ssa.MakeChan:
		o := e.newObj(st, fr.ctx, in.Name(), in.Type(), false)
		st.mem[o] = &ChanState{cap: fr.intVal(bs, in.Size), closed: "no"}
		return fr.set(bs, in, &ChanV{obj: o, elem: in.Type().Underlying().(*types.Chan).Elem()})

	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, fr.val(bs, b))
		}
		return fr.set(bs, in, f)

	case *ssa.MakeInterface:
		return fr.set(bs, in, &IfaceV{t: in.X.Type(), v: fr.val(bs, in.X)})

	case *ssa.ChangeInterface:
		v := fr.val(bs, in.X)
		if x, ok := v.(*IfaceV); ok && !x.isNil && x.t == nil && x.impl == nil {
			y := *x
			y.impl = in.X.Type()
			v = &y
		}
		return fr.set(bs, in, v)

	case *ssa.ChangeType:
		return fr.set(bs, in, fr.val(bs, in.X))

	case *ssa.Convert:
		return fr.set(bs, in, e.convert(st, fr.val(bs, in.X), in.X.Type(), in.Type()))

	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := instr.(ssa.Value)
		return fr.set(bs, v, symValue(fresh("conv"), v.Type()))

	case *ssa.TypeAssert:
		return fr.typeAssert(bs, in)

	case *ssa.Extract:
		if t, ok := fr.val(bs, in.Tuple).(TupleV); ok && in.Index < len(t) && t[in.Index] != nil {
			return fr.set(bs, in, t[in.Index])
		}
		return fr.set(bs, in, symValue(fresh("extract"), in.Type()))

	case *ssa.Lookup:
		return fr.lookup(bs, in)

	case *ssa.MapUpdate:
		m, _ := fr.val(bs, in.Map).(*MapV)
		k, v := fr.val(bs, in.Key), fr.val(bs, in.Value)
		if m == nil {
			return one(bs)
		}
		c := st.nilCond(m)
		d := st.decide(c)
		e.oblige(st, "nilmap", in, d == 0, "assignment to an entry of a map that may be nil")
		if d == 1 || d < 0 && !st.assume(c, false) {
			return nil
		}
		st.event(&Event{kind: "mapupdate", name: m.obj.name, args: []Value{m, k, v}, site: in})
		return fr.mapUpdate(bs, m.obj, k, v)

	case *ssa.Range:
		return fr.set(bs, in, &rangeV{x: fr.val(bs, in.X), t: in.X.Type(), id: fresh("range")})

	case *ssa.Next:
		return fr.next(bs, in)

	case *ssa.Send:
		return fr.sendChan(bs, fr.val(bs, in.Chan), fr.val(bs, in.X), in, true)

	case *ssa.Select:
		return fr.selectInstr(bs, in)

	case *ssa.Go:
		f, args, invoke := fr.callee(bs, &in.Call)
		st.event(&Event{kind: "go", name: goName(f, in), args: append([]Value{f}, args...), site: in})
		if e.late {
			st.pending = append(st.pending[:len(st.pending):len(st.pending)], pendingGo{in, f, args})
			return one(bs)
		}
		if e.seq {
			outs := fr.doCall(bs, in, f, args)
			var next []*bstate
			for i, o := range outs {
				n := bs
				if i > 0 {
					n = (&bstate{st: o.st, regs: bs.regs, defers: bs.defers}).regsCopy()
				}
				next = append(next, n)
			}
			for i, o := range outs {
				next[i].st = o.st
			}
			return next
		}
		_ = invoke
		if fv, ok := f.(*FuncV); ok && fv.fn != nil && e.collectGo && e.quiet == 0 {
			e.goStates = append(e.goStates, goState{st.clone(), fv, args, in})
		}
		return one(bs)

	case *ssa.Defer:
		f, args, _ := fr.callee(bs, &in.Call)
		fv, _ := f.(*FuncV)
		bs.defers = append(bs.defers[:len(bs.defers):len(bs.defers)], &deferred{fn: fv, instr: in, args: args})
		return one(bs)

	case *ssa.RunDefers:
		states := []*bstate{bs}
		ds := bs.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*bstate
			for _, s := range states {
				s.defers = nil
				for _, o := range fr.doCall(s, ds[i].instr, ds[i].fn, ds[i].args) {
					n := s
					if o.st != s.st {
						n = &bstate{st: o.st, regs: s.regs}
						if len(states) > 0 {
							n = n.regsCopy()
						}
					}
					next = append(next, n)
				}
			}
			states = next
		}
		return states

	case *ssa.Call:
		f, args, _ := fr.callee(bs, &in.Call)
		outs := fr.doCall(bs, in, f, args)
		var next []*bstate
		for i, o := range outs {
			n := bs
			if i > 0 {
				n = &bstate{st: o.st, regs: bs.regs, defers: bs.defers}
				n = n.regsCopy()
			}
			next = append(next, n)
		}
		for i, o := range outs {
			next[i].st = o.st
			next[i].regs[in] = o.v
		}
		return next
	}
	panic(undecided{fmt.Sprintf("instruction %T in %s", instr, funcName(fr.fn))})
}

func (b *bstate) regsCopy() *bstate {
	r := make(map[ssa.Value]Value, len(b.regs))
	for k, v := range b.regs {
		r[k] = v
	}
	return &bstate{st: b.st, regs: r, defers: b.defers}
}

func goName(f Value, in ssa.Instruction) string {
	if fv, ok := f.(*FuncV); ok && fv.fn != nil {
		return funcName(fv.fn)
	}
	return "?"
}

// callee evaluates the function and the arguments of a call. For a method of
// an interface the function is a FuncV with a name only.
func (fr *frame) callee(bs *bstate, c *ssa.CallCommon) (Value, []Value, bool) {
	var args []Value
	if c.IsInvoke() {
		recv := fr.val(bs, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, fr.val(bs, a))
		}
		return &FuncV{name: "invoke"}, args, true
	}
	for _, a := range c.Args {
		args = append(args, fr.val(bs, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return &FuncV{name: "builtin " + b.Name()}, args, false
	}
	return fr.val(bs, c.Value), args, false
}

// rangeV is the state of a range over a map or a string.
type rangeV struct {
	x  Value
	t  types.Type
	id string
	n  int
}

func (r *rangeV) vkey() string { return "range " + r.id + "(" + r.x.vkey() + ")" }

func (fr *frame) bounds(bs *bstate, in ssa.Instruction, idx, n *Lin) bool {
	f := bs.st.f
	lo := f.decideCmp(idx.neg(), opLE)
	hi := f.decideCmp(idx.sub(n).addC(1), opLE)
	fr.e.oblige(bs.st, "index", in, lo == 1 && hi == 1, fmt.Sprintf("index %s may not be in [0,%s)", f.reduce(idx), f.reduce(n)))
	if lo == 1 && hi == 1 {
		return true
	}
	return f.assumeCmp(idx.neg(), opLE) && f.assumeCmp(idx.sub(n).addC(1), opLE)
}

func (fr *frame) indexAddr(bs *bstate, in *ssa.IndexAddr) []*bstate {
	idx := fr.intVal(bs, in.Index)
	x := fr.val(bs, in.X)
	switch s := x.(type) {
	case *SliceV:
		if !fr.bounds(bs, in, idx, s.n) {
			return nil
		}
		p := s.ptr
		return fr.set(bs, in, &PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], Step{idx: bs.st.f.reduce(s.off.add(idx))})})
	case *PtrV:
		p, ok := fr.deref(bs, s, in)
		if !ok {
			return nil
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !fr.bounds(bs, in, idx, linC(at.Len())) {
			return nil
		}
		return fr.set(bs, in, &PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], Step{idx: bs.st.f.reduce(idx)})})
	}
	fr.e.oblige(bs.st, "index", in, false, "unknown slice "+vk(x))
	return fr.set(bs, in, &PtrV{obj: symObj(fresh("elem"), in.Type().Underlying().(*types.Pointer).Elem(), false)})
}

func strByte(st *State, s *StrV, idx *Lin) Value {
	if s.lit != nil {
		if k, ok := idx.intConst(); ok && k >= 0 && k < len(*s.lit) {
			return linC(int64((*s.lit)[k]))
		}
	}
	return symValue("strbyte("+s.vkey()+","+idx.key+")", types.Typ[types.Uint8])
}

func (fr *frame) slice(bs *bstate, in *ssa.Slice) []*bstate {
	st := bs.st
	f := st.f
	x := fr.val(bs, in.X)
	lo := linC(0)
	if in.Low != nil {
		lo = fr.intVal(bs, in.Low)
	}
	check := func(lo, hi, max *Lin) bool {
		a := f.decideCmp(lo.neg(), opLE)
		b := f.decideCmp(lo.sub(hi), opLE)
		c := f.decideCmp(hi.sub(max), opLE)
		ok := a == 1 && b == 1 && c == 1 || f.splitIndex([]*Lin{lo, hi, max}, func(f *Facts, l []*Lin) bool {
			return f.decideCmp(l[0].neg(), opLE) == 1 && f.decideCmp(l[0].sub(l[1]), opLE) == 1 && f.decideCmp(l[1].sub(l[2]), opLE) == 1
		})
		fr.e.oblige(st, "slice", in, ok, fmt.Sprintf("slice bounds [%s:%s] may not be within [0,%s]", f.reduce(lo), f.reduce(hi), f.reduce(max)))
		if ok {
			return true
		}
		return f.assumeCmp(lo.neg(), opLE) && f.assumeCmp(lo.sub(hi), opLE) && f.assumeCmp(hi.sub(max), opLE)
	}
	switch s := x.(type) {
	case *SliceV:
		hi := s.n
		if in.High != nil {
			hi = fr.intVal(bs, in.High)
		}
		cp := s.cap
		if in.Max != nil {
			cp = fr.intVal(bs, in.Max)
			if !check(hi, cp, s.cap) {
				return nil
			}
		}
		if !check(lo, hi, cp) {
			return nil
		}
		if s.isNil {
			return fr.set(bs, in, s)
		}
		return fr.set(bs, in, &SliceV{nilName: s.nilName, ptr: s.ptr, off: f.reduce(s.off.add(lo)), n: f.reduce(hi.sub(lo)), cap: f.reduce(cp.sub(lo))})
	case *StrV:
		hi := s.n
		if in.High != nil {
			hi = fr.intVal(bs, in.High)
		}
		if !check(lo, hi, s.n) {
			return nil
		}
		if s.lit != nil {
			if a, ok := lo.intConst(); ok {
				if b, ok := hi.intConst(); ok && a <= b && b <= len(*s.lit) {
					return fr.set(bs, in, strLit((*s.lit)[a:b]))
				}
			}
		}
		return fr.set(bs, in, &StrV{name: "substr(" + s.vkey() + "," + lo.key + "," + hi.key + ")", n: hi.sub(lo)})
	case *PtrV: // array
		p, ok := fr.deref(bs, s, in)
		if !ok {
			return nil
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := linC(at.Len())
		hi := n
		if in.High != nil {
			hi = fr.intVal(bs, in.High)
		}
		cp := n
		if in.Max != nil {
			cp = fr.intVal(bs, in.Max)
		}
		if !check(lo, hi, cp) {
			return nil
		}
		return fr.set(bs, in, &SliceV{ptr: p, off: lo, n: hi.sub(lo), cap: cp.sub(lo)})
	}
	fr.e.oblige(st, "slice", in, false, "unknown slice "+vk(x))
	return fr.set(bs, in, symValue(fresh("slice"), in.Type()))
}

// arr gives the array a slice refers to.
func (s *State) arr(v *SliceV) *ArrV {
	if v.ptr == nil {
		return &ArrV{elem: types.Typ[types.Uint8]}
	}
	if a, ok := s.load(v.ptr).(*ArrV); ok {
		return a
	}
	return &ArrV{elem: v.ptr.obj.typ, base: fresh("arr")}
}

// seg is the content of a slice.
func (s *State) seg(v *SliceV) []*Chunk {
	if v.isNil || v.n.constIs(0) {
		return nil
	}
	return expandSeg(s.f, s.arr(v), v.off, v.off.add(v.n))
}

func (fr *frame) unop(bs *bstate, in *ssa.UnOp) []*bstate {
	st := bs.st
	switch in.Op {
	case token.MUL:
		p, ok := fr.deref(bs, fr.val(bs, in.X), in)
		if !ok {
			return nil
		}
		v := st.load(p)
		if v == nil {
			v = symValue(fresh("load"), in.Type())
		}
		return fr.set(bs, in, v)
	case token.NOT:
		if b, ok := fr.val(bs, in.X).(*BoolV); ok {
			return fr.set(bs, in, b.not())
		}
		return fr.set(bs, in, symValue(fresh("not"), in.Type()))
	case token.SUB:
		if w, s, ok := intInfo(in.Type()); ok {
			return fr.set(bs, in, st.wrap(fr.intVal(bs, in.X).neg(), w, s))
		}
		return fr.set(bs, in, &FloatV{name: "-" + vk(fr.val(bs, in.X)), w: 64})
	case token.XOR:
		w, s, _ := intInfo(in.Type())
		x := fr.intVal(bs, in.X)
		if s {
			return fr.set(bs, in, x.neg().addC(-1))
		}
		return fr.set(bs, in, linBig(typeIvl(w, false).hi).sub(x))
	case token.ARROW:
		return fr.recvChan(bs, fr.val(bs, in.X), in, in.CommaOk)
	}
	panic(undecided{"operator " + in.Op.String()})
}

func (fr *frame) typeAssert(bs *bstate, in *ssa.TypeAssert) []*bstate {
	st := bs.st
	x, ok := fr.val(bs, in.X).(*IfaceV)
	if !ok {
		x = &IfaceV{name: fresh("iface")}
	}
	mk := func(bs *bstate, v Value, ok bool) *bstate {
		if in.CommaOk {
			if !ok {
				v = zeroValue(in.AssertedType)
			}
			bs.regs[in] = TupleV{v, boolC(ok)}
			return bs
		}
		fr.e.oblige(bs.st, "assert", in, ok, "the value may not be of type "+shortType(in.AssertedType)+": "+vk(x))
		if !ok {
			return nil
		}
		bs.regs[in] = v
		return bs
	}
	collect := func(l ...*bstate) (out []*bstate) {
		for _, b := range l {
			if b != nil {
				out = append(out, b)
			}
		}
		return
	}
	toIface := types.IsInterface(in.AssertedType)
	if x.isNil {
		return collect(mk(bs, nil, false))
	}
	if x.t != nil {
		if toIface {
			return collect(mk(bs, x, types.Implements(x.t, in.AssertedType.Underlying().(*types.Interface))))
		}
		if types.Identical(x.t, in.AssertedType) {
			return collect(mk(bs, x.v, true))
		}
		return collect(mk(bs, nil, false))
	}
	// unknown value
	nc := st.nilCond(x)
	if toIface {
		it := in.AssertedType.Underlying().(*types.Interface)
		var known *BoolV
		if it.NumMethods() == 0 || x.impl != nil && types.Implements(x.impl, it) {
			known = nc.not()
		} else if d := st.f.dyn[x.name]; d != nil && d.is != nil {
			known = boolC(types.Implements(d.is, it))
		} else {
			known = boolAtom("impl(" + x.name + "," + shortType(in.AssertedType) + ")")
		}
		y := *x
		y.impl = in.AssertedType
		y.nn = true
		switch st.decide(known) {
		case 1:
			return collect(mk(bs, &y, true))
		case 0:
			return collect(mk(bs, nil, false))
		}
		no := bs.fork()
		var a, b *bstate
		if st.assume(known, true) && st.assume(nc, false) {
			a = mk(bs, &y, true)
		}
		if no.st.assume(known, false) {
			b = mk(no, nil, false)
		}
		return collect(a, b)
	}
	switch st.f.decideDyn(x.name, in.AssertedType) {
	case 1:
		return collect(mk(bs, symValue(x.name+".("+shortType(in.AssertedType)+")", in.AssertedType), true))
	case 0:
		return collect(mk(bs, nil, false))
	}
	if st.decide(nc) == 1 {
		return collect(mk(bs, nil, false))
	}
	no := bs.fork()
	var a, b *bstate
	if st.f.assumeDyn(x.name, in.AssertedType, true) && st.assume(nc, false) {
		// implementing interfaces that the type does not implement is a contradiction
		ok := true
		for k, v := range st.f.b {
			if strings.HasPrefix(k, "impl("+x.name+",error") {
				it := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
				if types.Implements(in.AssertedType, it) != v {
					ok = false
				}
			}
		}
		if x.impl != nil {
			if it, isI := x.impl.Underlying().(*types.Interface); isI && !types.Implements(in.AssertedType, it) {
				ok = false
			}
		}
		if ok {
			a = mk(bs, symValue(x.name+".("+shortType(in.AssertedType)+")", in.AssertedType), true)
		}
	}
	if no.st.f.assumeDyn(x.name, in.AssertedType, false) {
		b = mk(no, nil, false)
	}
	return collect(a, b)
}

// --- maps

func constKey(v Value) bool {
	switch x := v.(type) {
	case *Lin:
		return x.isConst()
	case *StrV:
		return x.lit != nil
	case *BoolV:
		return x.isConst
	case *StructV:
		if x.base != "" {
			return false
		}
		for i := 0; i < x.t.NumFields(); i++ {
			if !constKey(x.field(i)) {
				return false
			}
		}
		return true
	}
	return false
}

// sameKey: 1 equal, 0 different, -1 unknown
func (s *State) sameKey(a, b Value) int { return s.equalValues(a, b) }

func (s *State) mapState(o *Obj) *MapState {
	if m, ok := s.root(o).(*MapState); ok {
		return m
	}
	return &MapState{base: fresh("map")}
}

func (s *State) mapSet(o *Obj, k, v Value, present bool) {
	m := s.mapState(o)
	n := &MapState{base: m.base}
	for _, e := range m.ents {
		switch s.sameKey(e.k, k) {
		case 1:
			continue
		case 0:
			n.ents = append(n.ents, e)
		default:
			if n.base == "" {
				n.base = fresh("map")
			}
		}
	}
	n.ents = append(n.ents, mapEnt{k, v, present})
	s.mem[o] = n
}

// mapUpdate keeps the keys of a small local map distinct: it is decided which
// of the entries it replaces.
func (fr *frame) mapUpdate(bs *bstate, o *Obj, k, v Value) []*bstate {
	ms := bs.st.mapState(o)
	if ms.base != "" || len(ms.ents) > 4 {
		bs.st.mapSet(o, k, v, true)
		return one(bs)
	}
	var out []*bstate
	cur := bs
	for _, e := range ms.ents {
		c := cur.st.equalCond(e.k, k)
		switch cur.st.decide(c) {
		case 1:
			cur.st.mapSet(o, e.k, v, true)
			return append(out, cur)
		case 0:
			continue
		}
		no := cur.fork()
		if cur.st.assume(c, true) {
			cur.st.mapSet(o, e.k, v, true)
			out = append(out, cur)
		}
		if !no.st.assume(c, false) {
			return out
		}
		cur = no
	}
	n := &MapState{ents: append(append([]mapEnt{}, ms.ents...), mapEnt{k, v, true})}
	cur.st.mem[o] = n
	return append(out, cur)
}

// distinctKeys: no two entries can be the same.
func (s *State) distinctKeys(ms *MapState) bool {
	for i := range ms.ents {
		for j := i + 1; j < len(ms.ents); j++ {
			if s.sameKey(ms.ents[i].k, ms.ents[j].k) != 0 {
				return false
			}
		}
	}
	return true
}

func (fr *frame) lookup(bs *bstate, in *ssa.Lookup) []*bstate {
	st := bs.st
	x := fr.val(bs, in.X)
	k := fr.val(bs, in.Index)
	if s, ok := x.(*StrV); ok {
		idx := fr.intVal(bs, in.Index)
		if !fr.bounds(bs, in, idx, s.n) {
			return nil
		}
		return fr.set(bs, in, strByte(st, s, idx))
	}
	m, _ := x.(*MapV)
	mt, _ := in.X.Type().Underlying().(*types.Map)
	mk := func(bs *bstate, v Value, ok bool) *bstate {
		if !ok {
			v = zeroValue(mt.Elem())
		}
		if in.CommaOk {
			bs.regs[in] = TupleV{v, boolC(ok)}
		} else {
			bs.regs[in] = v
		}
		return bs
	}
	if m == nil {
		return fr.set(bs, in, symValue(fresh("lookup"), in.Type()))
	}
	if m.isNil {
		return one(mk(bs, nil, false))
	}
	return fr.lookupIn(bs, m.obj, mt, k, mk)
}

func (fr *frame) lookupIn(bs *bstate, o *Obj, mt *types.Map, k Value, mk func(*bstate, Value, bool) *bstate) []*bstate {
	st := bs.st
	ms := st.mapState(o)
	var out []*bstate
	cur := bs
	for i := len(ms.ents) - 1; i >= 0; i-- {
		e := ms.ents[i]
		c := cur.st.equalCond(e.k, k)
		switch cur.st.decide(c) {
		case 1:
			return append(out, mk(cur, e.v, e.present))
		case 0:
			continue
		}
		no := cur.fork()
		if cur.st.assume(c, true) {
			out = append(out, mk(cur, e.v, e.present))
		}
		if !no.st.assume(c, false) {
			return out
		}
		cur = no
	}
	if ms.base == "" {
		return append(out, mk(cur, nil, false))
	}
	name := ms.base + "[" + vk(k) + "]"
	if l, ok := k.(*Lin); ok {
		name = ms.base + "[" + cur.st.f.reduce(l).key + "]"
	}
	c := boolAtom("has(" + name + ")")
	v := symValue(name, mt.Elem())
	switch cur.st.decide(c) {
	case 1:
		return append(out, mk(cur, v, true))
	case 0:
		return append(out, mk(cur, nil, false))
	}
	no := cur.fork()
	cur.st.assume(c, true)
	no.st.assume(c, false)
	return append(out, mk(cur, v, true), mk(no, nil, false))
}

func (fr *frame) next(bs *bstate, in *ssa.Next) []*bstate {
	st := bs.st
	r, _ := fr.val(bs, in.Iter).(*rangeV)
	tt := in.Type().(*types.Tuple)
	if r == nil || in.IsString {
		n := fresh("next")
		no := bs.fork()
		bs.regs[in] = TupleV{boolC(true), symValue(n+".k", types.Typ[types.Int]), symValue(n+".v", types.Typ[types.Int32])}
		no.regs[in] = TupleV{boolC(false), linC(0), linC(0)}
		return []*bstate{bs, no}
	}
	mt := r.t.Underlying().(*types.Map)
	m, _ := r.x.(*MapV)
	zero := TupleV{boolC(false), zeroValue(mt.Key()), zeroValue(mt.Elem())}
	_ = tt
	if m == nil || m.isNil {
		bs.regs[in] = zero
		return one(bs)
	}
	ms := st.mapState(m.obj)
	if ms.base == "" {
		// all entries are known: any order; they are visited one after another
		all := true
		var ks []mapEnt
		for _, e := range ms.ents {
			if !constKey(e.k) {
				all = false
			}
			if e.present {
				ks = append(ks, e)
			}
		}
		if len(ks) <= 3 && len(ms.ents) <= 4 && (all || st.distinctKeys(ms)) {
			// in any order
			var out []*bstate
			for _, e := range ks {
				at := "iter " + r.id + " " + vk(e.k)
				if st.counts[at] > 0 {
					continue
				}
				b := bs.fork()
				b.st.counts[at]++
				b.regs[in] = TupleV{boolC(true), e.k, e.v}
				out = append(out, b)
			}
			if len(out) == 0 {
				bs.regs[in] = zero
				return one(bs)
			}
			return out
		}
		if all {
			sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i].k, ks[j].k) })
			n := st.counts["iter "+r.id]
			st.counts["iter "+r.id]++
			if n < len(ks) {
				bs.regs[in] = TupleV{boolC(true), ks[n].k, ks[n].v}
			} else {
				bs.regs[in] = zero
			}
			return one(bs)
		}
	}
	n := fresh("next")
	no := bs.fork()
	k := symValue(n+".k", mt.Key())
	v := symValue(n+".v", mt.Elem())
	bs.regs[in] = TupleV{boolC(true), k, v}
	no.regs[in] = zero
	return []*bstate{bs, no}
}

func keyLess(a, b Value) bool {
	x, ok1 := a.(*Lin)
	y, ok2 := b.(*Lin)
	if ok1 && ok2 {
		return x.c.Cmp(y.c) < 0
	}
	return a.vkey() < b.vkey()
}

// --- channels

func (fr *frame) sendChan(bs *bstate, c Value, v Value, in ssa.Instruction, blocking bool) []*bstate {
	ch, _ := c.(*ChanV)
	if ch == nil {
		return one(bs)
	}
	st := bs.st
	if ch.isNil {
		fr.stuck(bs, in, "a send on a nil channel")
		return nil
	}
	cs, _ := st.root(ch.obj).(*ChanState)
	if fr.e.precise && blocking && cs != nil {
		if r, known := cs.ready(types.SendOnly); known && !r {
			if out, ok := fr.whileWaiting(bs, in, func(n *bstate) []*bstate { return fr.sendChan(n, c, v, in, blocking) }); ok {
				return out
			}
			fr.stuck(bs, in, "a send that nobody receives")
			return nil
		}
	}
	if cs != nil {
		if cs.closed == "yes" {
			fr.e.oblige(st, "closed", in, false, "send on a closed channel")
			return nil
		}
		fr.e.oblige(st, "closed", in, true, "")
		n := *cs
		n.sends++
		if fr.e.seq && n.closed == "no" {
			n.queue = append(n.queue[:len(n.queue):len(n.queue)], v)
		}
		st.mem[ch.obj] = &n
	}
	kind := "send"
	if !blocking {
		kind = "trysend"
	}
	st.event(&Event{kind: kind, name: ch.obj.name, args: []Value{ch, v}, site: in})
	return one(bs)
}

func (fr *frame) recvChan(bs *bstate, c Value, in ssa.Instruction, commaOk bool) []*bstate {
	ch, _ := c.(*ChanV)
	st := bs.st
	var et types.Type
	name := fresh("recv")
	if ch != nil {
		et = ch.elem
		if ch.obj != nil {
			name = fresh("recv:" + ch.obj.name)
		}
	} else {
		et = in.(ssa.Value).Type()
		if t, ok := et.(*types.Tuple); ok {
			et = t.At(0).Type()
		}
	}
	v := symValue(name, et)
	if ch != nil && ch.obj != nil && fr.e.seq {
		if cs, _ := st.root(ch.obj).(*ChanState); cs != nil && len(cs.queue) > 0 {
			v = cs.queue[0]
			n := *cs
			n.queue = n.queue[1:]
			st.mem[ch.obj] = &n
			if commaOk {
				v = TupleV{v, boolC(true)}
			}
			return fr.set(bs, in.(ssa.Value), v)
		}
	}
	if ch != nil && ch.obj != nil && fr.e.precise {
		if cs, _ := st.root(ch.obj).(*ChanState); cs != nil {
			switch r, known := cs.ready(types.RecvOnly); {
			case known && !r:
				if out, ok := fr.whileWaiting(bs, in, func(n *bstate) []*bstate { return fr.recvChan(n, c, in, commaOk) }); ok {
					return out
				}
				fr.stuck(bs, in, "nothing is sent that could be received")
				return nil
			case known:
				v = zeroValue(et)
				if commaOk {
					v = TupleV{v, boolC(false)}
				}
				return fr.set(bs, in.(ssa.Value), v)
			}
		}
	}
	st.event(&Event{kind: "recv", name: chanName(ch), args: []Value{c}, res: v, site: in})
	if commaOk {
		v = TupleV{v, boolAtom(name + ".ok")}
	}
	return fr.set(bs, in.(ssa.Value), v)
}

func chanName(ch *ChanV) string {
	if ch == nil || ch.obj == nil {
		return "?"
	}
	return ch.obj.name
}

func (fr *frame) selectInstr(bs *bstate, in *ssa.Select) []*bstate {
	// result: index, recvOk, received values
	tt := in.Type().(*types.Tuple)
	var out []*bstate
	nrecv := 0
	cases := len(in.States)
	only, ready, stuck := fr.readyCases(bs, in)
	if !ready {
		more, waited := fr.whileWaiting(bs, in, func(n *bstate) []*bstate { return fr.selectInstr(n, in) })
		out = more
		if waited && (stuck || bs.st.flags["prompt"] != nil) {
			return out
		}
		if bs.st.flags["tick"] == nil && fr.park(bs) {
			return out
		}
	}
	if stuck {
		fr.stuck(bs, in, "no case of the select can be chosen")
		return out
	}
	for i := 0; i <= cases; i++ {
		if i == cases && in.Blocking {
			break
		}
		if only != nil && !only[i] {
			if i < cases && in.States[i].Dir == types.RecvOnly {
				nrecv++
			}
			continue
		}
		n := bs.fork()
		t := make(TupleV, tt.Len())
		for j := 2; j < tt.Len(); j++ {
			t[j] = zeroValue(tt.At(j).Type())
		}
		t[1] = boolC(false)
		if i == cases {
			t[0] = linC(-1)
			n.st.event(&Event{kind: "select", name: "default", site: in})
			n.regs[in] = t
			out = append(out, n)
			continue
		}
		s := in.States[i]
		t[0] = linC(int64(i))
		cv := fr.val(n, s.Chan)
		if ch, ok := cv.(*ChanV); ok && ch.isNil {
			if s.Dir == types.RecvOnly {
				nrecv++
			}
			continue
		}
		var others []Value
		for j, o := range in.States {
			if j != i {
				others = append(others, fr.val(n, o.Chan))
			}
		}
		kind := "select"
		if s.Dir == types.SendOnly {
			n.st.event(&Event{kind: kind, name: "case", args: others, site: in})
			r := fr.sendChan(n, cv, fr.val(n, s.Send), in, in.Blocking && cases == 1)
			if len(r) == 0 {
				continue
			}
		} else {
			n.st.event(&Event{kind: kind, name: "case", args: others, site: in})
			ch, _ := cv.(*ChanV)
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if cs := n.st.chanState(ch); fr.e.precise && cs != nil && cs.closed != "?" && (len(cs.queue) > 0 || cs.closed == "yes") {
				t[1] = boolC(len(cs.queue) > 0)
				t[2+nrecv] = zeroValue(et)
				if len(cs.queue) > 0 {
					t[2+nrecv] = cs.queue[0]
					q := *cs
					q.queue = q.queue[1:]
					n.st.mem[ch.obj] = &q
				}
				nrecv++
				n.regs[in] = t
				out = append(out, n)
				continue
			}
			v := symValue(fresh("recv:"+chanName(ch)), et)
			n.st.event(&Event{kind: "recv", name: chanName(ch), args: []Value{cv}, res: v, site: in})
			t[1] = boolAtom(fresh("recvok"))
			t[2+nrecv] = v
			nrecv++
		}
		n.regs[in] = t
		out = append(out, n)
	}
	return out
}

// ready: the operation does not wait. Not known for channels of unknown content.
func (cs *ChanState) ready(dir types.ChanDir) (ready, known bool) {
	if cs.closed == "?" {
		return false, false
	}
	if dir == types.RecvOnly {
		return len(cs.queue) > 0 || cs.closed == "yes", true
	}
	if cs.closed == "yes" {
		return true, true
	}
	n, ok := cs.cap.intConst()
	return ok && len(cs.queue) < n, ok
}

func (st *State) chanState(ch *ChanV) *ChanState {
	if ch == nil || ch.isNil || ch.obj == nil {
		return nil
	}
	cs, _ := st.root(ch.obj).(*ChanState)
	return cs
}

// readyCases are those that can be chosen (the last one is the default), when
// goroutines run where they are started: other channels, such as those of
// contexts, become ready when no other is. nil: any.
func (fr *frame) readyCases(bs *bstate, in *ssa.Select) (only map[int]bool, ready, stuck bool) {
	if !fr.e.precise {
		return nil, true, false
	}
	sure, maybe := map[int]bool{}, map[int]bool{}
	for i, s := range in.States {
		ch, _ := fr.val(bs, s.Chan).(*ChanV)
		if ch != nil && ch.isNil || fr.neverDone(bs.st, ch) {
			continue
		}
		cs := bs.st.chanState(ch)
		if cs == nil {
			maybe[i] = true
			continue
		}
		switch r, known := cs.ready(s.Dir); {
		case !known:
			maybe[i] = true
		case r:
			sure[i] = true
		}
	}
	switch {
	case len(sure) > 0:
		if bs.st.flags["tick"] != nil {
			for i := range maybe {
				sure[i] = true
			}
		}
		return sure, true, false
	case !in.Blocking:
		maybe[len(in.States)] = true
		return maybe, true, false
	case len(maybe) == 0:
		return nil, false, true
	}
	return maybe, false, false
}

// stuck: a goroutine waits for ever.
func (fr *frame) stuck(bs *bstate, in ssa.Instruction, why string) {
	if fr.park(bs) {
		return
	}
	bs.st.event(&Event{kind: "block", name: why, site: in})
	fr.e.oblige(bs.st, "blocked", in, false, why)
}

// --- equality of values

func (s *State) equalCond(a, b Value) *BoolV {
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return boolCmp(s.f.reduce(x.sub(y)), opEQ)
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			if x.lit != nil && y.lit != nil {
				return boolC(*x.lit == *y.lit)
			}
			if x.vkey() == y.vkey() {
				return boolC(true)
			}
			if s.f.decideCmp(x.n.sub(y.n), opEQ) == 0 {
				return boolC(false)
			}
			if x.lit != nil && differs(*x.lit, y) || y.lit != nil && differs(*y.lit, x) {
				return boolC(false)
			}
			if a, b := numberIn(x), numberIn(y); a != nil && b != nil && sameFrame(x, y) {
				// texts of numbers are equal if the numbers are
				return boolCmp(s.f.reduce(a.sub(b)), opEQ)
			}
			for _, z := range [][2]*StrV{{x, y}, {y, x}} {
				if n := numberIn(z[1]); n != nil && z[0].lit != nil && len(*z[0].lit) < 18 {
					// a text is the one of one number
					if k, ok := numberOf(*z[0].lit, z[1]); ok {
						return boolCmp(s.f.reduce(n.sub(linC(k))), opEQ)
					}
					return boolC(false)
				}
			}
			p, q := x.vkey(), y.vkey()
			if p > q {
				p, q = q, p
			}
			if x.lit != nil || y.lit != nil {
				// a text that is one literal is no other
				for n, is := range s.f.b {
					if is && strings.HasPrefix(n, "eq(\"") && strings.HasSuffix(n, "\","+q+")") && n != "eq("+p+","+q+")" {
						return boolC(false)
					}
				}
			}
			return boolAtom("eq(" + p + "," + q + ")")
		}
	case *BoolV:
		if y, ok := b.(*BoolV); ok {
			if y.isConst {
				if y.val {
					return x
				}
				return x.not()
			}
			if x.isConst {
				if x.val {
					return y
				}
				return y.not()
			}
			if x.vkey() == y.vkey() {
				return boolC(true)
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && x.t.NumFields() == y.t.NumFields() {
			all := true
			for i := 0; i < x.t.NumFields(); i++ {
				switch s.equalValues(x.field(i), y.field(i)) {
				case 0:
					return boolC(false)
				case -1:
					all = false
				}
			}
			if all {
				return boolC(true)
			}
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if y.isNil {
				return s.nilCond(x)
			}
			if x.isNil {
				return s.nilCond(y)
			}
			if x.vkey() == y.vkey() {
				return boolC(true)
			}
			if x.obj != y.obj && !x.obj.may && !y.obj.may && (!x.obj.sym || !y.obj.sym) {
				return boolC(false)
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if y.isNil {
				return s.nilCond(x)
			}
			if x.isNil {
				return s.nilCond(y)
			}
			if x.t != nil && y.t != nil {
				if !types.Identical(x.t, y.t) {
					return boolC(false)
				}
				return s.equalCond(x.v, y.v)
			}
		}
	case *SliceV, *MapV, *FuncV, *ChanV:
		if isNilVal(b) {
			return s.nilCond(a)
		}
		if isNilVal(a) {
			return s.nilCond(b)
		}
	}
	p, q := vk(a), vk(b)
	if p == q {
		if _, isF := a.(*FloatV); !isF {
			return boolC(true)
		}
	}
	if p > q {
		p, q = q, p
	}
	return boolAtom("eq(" + p + "," + q + ")")
}

// numberIn is the number of a text that is literals around the text of one.
func numberIn(v *StrV) *Lin {
	var n *Lin
	for _, p := range v.pieces() {
		switch {
		case p.lit != nil:
		case p.num != nil && n == nil:
			n = p.num
		default:
			return nil
		}
	}
	return n
}

// numberOf is the number for which the text is the literal.
func numberOf(lit string, v *StrV) (int64, bool) {
	ps := v.pieces()
	if ps[0].lit != nil {
		if !strings.HasPrefix(lit, *ps[0].lit) {
			return 0, false
		}
		lit, ps = lit[len(*ps[0].lit):], ps[1:]
	}
	if len(ps) > 1 {
		if !strings.HasSuffix(lit, *ps[1].lit) {
			return 0, false
		}
		lit = strings.TrimSuffix(lit, *ps[1].lit)
	}
	k, err := strconv.ParseInt(lit, 10, 64)
	return k, err == nil && strconv.FormatInt(k, 10) == lit
}

// sameFrame says whether the literals around a number are the same ones.
func sameFrame(x, y *StrV) bool {
	p, q := x.pieces(), y.pieces()
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if (p[i].lit == nil) != (q[i].lit == nil) || p[i].lit != nil && *p[i].lit != *q[i].lit {
			return false
		}
	}
	return true
}

// differs says whether a concatenation begins or ends otherwise than the text.
func differs(lit string, v *StrV) bool {
	if len(v.parts) == 0 {
		return false
	}
	a, z := v.parts[0], v.parts[len(v.parts)-1]
	return a.lit != nil && !strings.HasPrefix(lit, *a.lit) || z.lit != nil && !strings.HasSuffix(lit, *z.lit)
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.isNil
	case *SliceV:
		return x.isNil
	case *MapV:
		return x.isNil
	case *ChanV:
		return x.isNil
	case *FuncV:
		return x.isNil
	case *IfaceV:
		return x.isNil
	}
	return false
}

func (s *State) equalValues(a, b Value) int { return s.decide(s.equalCond(a, b)) }
