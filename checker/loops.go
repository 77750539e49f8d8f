package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock // reverse postorder
	parent *Loop
}

type loopInfo struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*Loop
	liveIn   map[*ssa.BasicBlock]map[ssa.Value]bool
}

type loopResult struct {
	bounded  int
	summary  int
	backs    int
	progress int      // back edges with progress
	stuck    []string // back edges without
	how      map[string]int
}

func (e *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := e.infos[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	// loops
	for _, b := range li.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.byHeader[h]
			if l == nil {
				l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] || !seen[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// the order of a region must have all blocks of an inner loop before what
	// follows it: the reverse postorder need not
	for _, l := range li.byHeader {
		for _, m := range li.byHeader {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	li.rpo = li.regionOrder(fn.Blocks[0], nil)
	for _, l := range li.byHeader {
		l.order = li.regionOrder(l.header, l)
	}
	li.liveness(fn)
	return li
}

// regionOrder is a topological order of the blocks of a region where every
// loop directly in it counts as one node (its header).
func (li *loopInfo) regionOrder(entry *ssa.BasicBlock, L *Loop) []*ssa.BasicBlock {
	// representative of a block: the header of the outermost loop within L
	rep := func(b *ssa.BasicBlock) *ssa.BasicBlock {
		var best *Loop
		for _, l := range li.byHeader {
			if l == L || !l.blocks[b] {
				continue
			}
			if L != nil && (!L.blocks[l.header] || l.header == L.header) {
				continue
			}
			if best == nil || len(l.blocks) > len(best.blocks) {
				best = l
			}
		}
		if best != nil {
			return best.header
		}
		return b
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(n *ssa.BasicBlock)
	dfs = func(n *ssa.BasicBlock) {
		seen[n] = true
		var succs []*ssa.BasicBlock
		if l := li.byHeader[n]; l != nil && l != L {
			for b := range l.blocks {
				for _, s := range b.Succs {
					if !l.blocks[s] {
						succs = append(succs, s)
					}
				}
			}
			sort.Slice(succs, func(i, j int) bool { return succs[i].Index < succs[j].Index })
		} else {
			succs = n.Succs
		}
		for _, s := range succs {
			if L != nil && (!L.blocks[s] || s == L.header) {
				continue
			}
			r := rep(s)
			if !seen[r] {
				dfs(r)
			}
		}
		post = append(post, n)
	}
	dfs(entry)
	var out []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	return out
}

func (li *loopInfo) liveness(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		li.liveIn[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.liveIn[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if track(p.Edges[pi]) {
						live[p.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			// phis of the block are set when it is entered
			if len(live) != len(li.liveIn[b]) {
				li.liveIn[b] = live
				changed = true
			}
		}
	}
}

func (fr *frame) runLoop(l *Loop, in []*bstate) []edgeState {
	e := fr.e
	var out []edgeState
	// partitions that differ only in the facts have been joined; too many
	// partitions are summarised one by one all the same
	for _, s := range in {
		// not entered at all?
		e.quiet++
		pend := map[*ssa.BasicBlock][]*bstate{l.header: {s.fork()}}
		_, backs := fr.runRegion([]*ssa.BasicBlock{l.header}, l, pend)
		e.quiet--
		if len(backs) == 0 && len(pend) == 0 {
			exits, _ := fr.runRegion([]*ssa.BasicBlock{l.header}, l, map[*ssa.BasicBlock][]*bstate{l.header: {s}})
			out = append(out, exits...)
			continue
		}
		if exits, ok := fr.unrollLoop(l, s.fork()); ok {
			out = append(out, exits...)
			continue
		}
		out = append(out, fr.summarise(l, s)...)
		if len(out) > e.maxParts*4 {
			panic(undecided{"too many partitions after a loop in " + funcName(fr.fn)})
		}
	}
	return out
}

func (e *Engine) loopRes(l *Loop) *loopResult {
	r := e.loopsN[l]
	if r == nil {
		r = &loopResult{how: map[string]int{}}
		e.loopsN[l] = r
	}
	return r
}

// exitTest says if the header of the loop decides about leaving it.
func (l *Loop) exitTest() bool {
	b := l.header
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if !l.dependsOnPhi(i.Cond, 0) {
		return false
	}
	return !l.blocks[b.Succs[0]] || !l.blocks[b.Succs[1]]
}

// dependsOnPhi says if the condition is about a variable that the loop changes.
func (l *Loop) dependsOnPhi(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == l.header
	case *ssa.BinOp:
		return l.dependsOnPhi(x.X, depth+1) || l.dependsOnPhi(x.Y, depth+1)
	case *ssa.UnOp:
		// a variable in memory
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return a.Parent() != nil
		}
		return l.dependsOnPhi(x.X, depth+1)
	case *ssa.Convert:
		return l.dependsOnPhi(x.X, depth+1)
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

// shrinks says if the test of the header is about a variable that loses bits
// in every iteration, so that there are not more of them than it has bits.
func (l *Loop) shrinks() bool {
	b := l.header
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{cond.X, cond.Y} {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != b {
			continue
		}
		all := true
		for k, ed := range phi.Edges {
			if !l.blocks[b.Preds[k]] {
				continue
			}
			op, ok := ed.(*ssa.BinOp)
			if !ok || op.X != phi || op.Op != token.SHR && op.Op != token.QUO {
				all = false
				break
			}
			c, ok := op.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int || constant.Sign(c.Value) <= 0 || op.Op == token.QUO && constant.Compare(c.Value, token.LSS, constant.MakeInt64(2)) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (fr *frame) unrollLoop(l *Loop, s *bstate) ([]edgeState, bool) {
	e := fr.e
	test := l.exitTest()
	shrinks := test && l.shrinks()
	if !test && e.unrollAny == 0 {
		return nil, false
	}
	limit := e.unroll
	if shrinks {
		limit = 66
	}
	open := 0 // iterations that may be the last one, or not
	nrets := len(fr.rets)
	oblMark := e.oblSnapshot()
	cur := []*bstate{s}
	var exits []edgeState
	fail := func() ([]edgeState, bool) {
		fr.rets = fr.rets[:nrets]
		e.oblRestore(oblMark)
		return nil, false
	}
	for i := 0; ; i++ {
		if i > limit || len(cur) > e.unrollParts || !test && open > e.unrollAny {
			return fail()
		}
		before := len(fr.rets)
		// the test in the header has to be decided
		fr.headerUndecided = nil
		pend := map[*ssa.BasicBlock][]*bstate{l.header: cur}
		old := fr.watchHeader
		fr.watchHeader = nil
		if test && !shrinks {
			fr.watchHeader = l.header
		}
		ex, backs := fr.runRegion(l.order, l, pend)
		fr.watchHeader = old
		if test && fr.headerUndecided == l.header {
			fr.headerUndecided = nil
			return fail()
		}
		exits = append(exits, ex...)
		if len(backs) == 0 {
			break
		}
		if len(ex) > 0 || len(fr.rets) > before || len(backs) > 1 {
			open++
		}
		cur = fr.merge(l.header, backs)
	}
	if e.quiet == 0 {
		e.loopRes(l).bounded++
	}
	return exits, true
}

type oblMark struct {
	n    int
	vals []Obligation
	gos  int
}

func (e *Engine) oblSnapshot() oblMark {
	m := oblMark{n: len(e.oblSeq), gos: len(e.goStates)}
	for _, o := range e.oblSeq {
		m.vals = append(m.vals, *o)
	}
	return m
}

func (e *Engine) oblRestore(m oblMark) {
	for _, o := range e.oblSeq[m.n:] {
		delete(e.obl, fmt.Sprintf("%s@%p", o.kind, o.instr))
	}
	e.oblSeq = e.oblSeq[:m.n]
	for i, o := range m.vals {
		*e.oblSeq[i] = o
	}
	e.goStates = e.goStates[:m.gos]
}

// --- summary of a loop

// locID names a location that a loop changes.
type locID struct {
	reg  *ssa.Phi
	obj  *Obj
	path string // within the object
}

func (l locID) String() string {
	if l.reg != nil {
		return l.reg.Name()
	}
	return l.obj.name + l.path
}

// gen says how the value of a location is generalised.
type gen struct {
	kind  string   // const (unchanged), step, int, bool, seq, buf, sym
	step  *big.Int // step: v0 + step*kappa
	base  *Lin
	atom  *Atom
	cands []cand
	val   Value // the value at the loop head
	star  *Star
	typ   types.Type
	nn    bool
	init  Value

	forceNil bool // it may be nil

	lo *big.Int // smallest and largest increment seen
	hi *big.Int
}

// cand is a candidate invariant l <= 0 or l == 0 about the head of the loop,
// written with the head's atoms.
type cand struct {
	l  *Lin
	op cmpOp
}

type summary struct {
	fr       *frame
	l        *Loop
	s0       *bstate
	id       string
	kappa    *Atom
	gens     map[string]*gen
	order    []string
	shortErr string          // the location of the error that a failed read leaves
	advLow   map[string]bool // buffers that an iteration may fill
	drop     map[string]bool // dropped candidates
	trace    *Star
	flags    map[string]Value
	extra    []cand
	nxtra    map[string]bool
	subst    []substPair
}

type substPair struct {
	a  *Atom
	to func(g *summary, back *bstate) *Lin
}

func (fr *frame) summarise(l *Loop, s0 *bstate) []edgeState {
	e := fr.e
	ck := fmt.Sprintf("loop %s:%d", fr.ctx, l.header.Index)
	id := fmt.Sprintf("%s.%d", ck, s0.st.next(ck))
	sm := &summary{fr: fr, l: l, s0: s0, id: id, gens: map[string]*gen{}, drop: map[string]bool{}, advLow: map[string]bool{}, flags: map[string]Value{}, nxtra: map[string]bool{}}
	sm.kappa = mkAtomRange("k<"+id+">", 48, false, bigZero, nil)
	sm.warmUp(ck)
	nrets := len(fr.rets)
	stable := false
	var head *bstate
	for it := 0; it < 40; it++ {
		head = sm.head()
		e.quiet++
		pend := map[*ssa.BasicBlock][]*bstate{l.header: {head.fork()}}
		exits, backs := fr.runRegion(l.order, l, pend)
		e.quiet--
		rets := append([]ret{}, fr.rets[nrets:]...)
		fr.rets = fr.rets[:nrets]
		for _, b := range backs {
			fr.collectBack(l, head, b)
		}
		if e.coarse > 0 {
			backs = fr.merge(l.header, backs)
		}
		up := sm.update(head, backs)
		if dbgOn {
			ks := ""
			for _, k := range sm.order {
				ks += k + "=" + sm.gens[k].kind + " "
			}
			dbg("%s loop %s iteration %d: %d backs, changed %v, %d extra; %d steps %s", strings.Repeat(" ", len(e.stack)), e.prog.pos(instrPos(l.header.Instrs[0])), it, len(backs), up, len(sm.extra), e.steps, ks)
		}
		if !up {
			stable = true
			sm.keepWarm(ck)
			if e.quiet > 0 {
				// nothing is recorded: this was the last iteration
				fr.rets = append(fr.rets, rets...)
				return exits
			}
			break
		}
	}
	if !stable {
		for _, k := range sm.order {
			dbg("   gen %s %s", k, sm.gens[k].kind)
		}
		panic(undecided{"no fixpoint for the loop at " + e.prog.pos(instrPos(l.header.Instrs[0])) + " in " + funcName(fr.fn)})
	}
	head = sm.head()
	pend := map[*ssa.BasicBlock][]*bstate{l.header: {head.fork()}}
	exits, backs := fr.runRegion(l.order, l, pend)
	if e.quiet == 0 {
		r := e.loopRes(l)
		r.summary++
		r.backs += len(backs)
		for _, b := range backs {
			how := sm.progress(head, b)
			if how == "" {
				how = sm.progressByRerun(head, b)
			}
			if how == "" {
				f := b.st.f.String()
				if len(f) > 400 {
					f = f[:400]
				}
				if dbgOn {
					for _, k := range sm.order {
						g := sm.gens[k]
						if g.kind == "buf" {
							id := sm.ids(k)
							off := sm.bufOff(b, id, k)
							hv := sm.head()
							ho := sm.bufOff(hv, id, k)
							dbg("   STUCK buf %s atom %v: head %v back %v diff %v", k, g.atom, ho, off, off != nil && g.atom != nil)
							if off != nil && g.atom != nil {
								dbg("       rng diff %v", b.st.f.rng(off.sub(linAtom(g.atom))))
							}
						} else {
							id := sm.ids(k)
							if id.obj != nil {
								v := b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k])
								dbg("   STUCK %s %s: %s", g.kind, k, v.vkey())
							}
						}
					}
				}
				r.stuck = append(r.stuck, f)
			} else {
				r.progress++
				r.how[how]++
			}
		}
		if e.onLoop != nil {
			e.onLoop(l, r)
		}
	}
	return exits
}

// warmLoop is what the last summary of a loop looked like. A new summary of the
// loop starts with it: what is too general stays correct.
type warmLoop struct {
	ids   map[string]locID
	paths map[string][]Step
	gens  map[string]*gen
	drop  map[string]bool
	trace bool
	flags map[string]bool
}

func (sm *summary) keepWarm(ck string) {
	e := sm.fr.e
	if e.coarse == 0 {
		return
	}
	if e.warm == nil {
		e.warm = map[string]*warmLoop{}
	}
	w := e.warm[ck]
	if w == nil {
		w = &warmLoop{ids: map[string]locID{}, paths: map[string][]Step{}, gens: map[string]*gen{}, drop: map[string]bool{}, flags: map[string]bool{}}
		e.warm[ck] = w
	}
	for k, g := range sm.gens {
		o := w.gens[k]
		if o != nil && o.kind == "sym" {
			o.forceNil = o.forceNil || !g.nn
			continue
		}
		g.forceNil = !g.nn
		w.gens[k] = g
		w.ids[k] = sm.ids(k)
		w.paths[k] = locPaths[sm.id+k]
	}
	for k := range sm.drop {
		w.drop[strings.ReplaceAll(k, sm.id, "@")] = true
	}
	w.trace = w.trace || sm.trace != nil
	for k := range sm.flags {
		if k != "short" {
			w.flags[k] = true
		}
	}
}

func (sm *summary) warmUp(ck string) {
	w := sm.fr.e.warm[ck]
	if w == nil {
		return
	}
	var ks []string
	for k := range w.gens {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := w.gens[k]
		id := w.ids[k]
		var init Value
		if id.reg != nil {
			init = sm.fr.val(sm.s0, id.reg)
		} else {
			if _, ok := sm.s0.st.mem[id.obj]; !ok && !id.obj.sym && id.obj.glob == nil {
				continue
			}
			init = sm.s0.st.getPath(sm.s0.st.root(id.obj), w.paths[k])
		}
		if init == nil {
			continue
		}
		g := &gen{kind: "new", typ: o.typ, init: init, forceNil: o.forceNil}
		name := "at<" + sm.id + ">" + k
		x, isLin := init.(*Lin)
		switch o.kind {
		case "int":
			if !isLin {
				continue
			}
			sm.toAtom(g, name, x, nil)
		case "step":
			if !isLin {
				continue
			}
			g.kind, g.base, g.step = "step", x, o.step
		case "sym":
			if isLin || g.typ == nil {
				continue
			}
			switch init.(type) {
			case *MapState, *ChanState, *ArrV:
				continue
			case *BufV:
			}
			g.kind = "sym"
			g.val = symValue(name, g.typ)
			sm.nilFacts(g, nil, nil, nil)
		case "buf":
			b, ok := init.(*BufV)
			if !ok || o.atom == nil || len(b.cs) != 1 || b.cs[0].arr == nil {
				continue
			}
			sm.readGen(g, name, b)
		default:
			continue
		}
		sm.gens[k] = g
		sm.order = append(sm.order, k)
		locIDs[sm.id+k] = id
		locPaths[sm.id+id.String()] = w.paths[k]
	}
	for k := range w.drop {
		sm.drop[strings.ReplaceAll(k, "@", sm.id)] = true
	}
	if w.trace {
		sm.trace = sm.newStar("events<" + sm.id + ">")
	}
	for k := range w.flags {
		sm.flags[k] = boolAtom("flag<" + sm.id + ">" + k)
	}
	sort.Strings(sm.order)
}

// headPhis are the registers that are set at the head.
func (sm *summary) headPhis() []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range sm.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// head builds the state at the head of the loop.
func (sm *summary) head() *bstate {
	h := sm.s0.fork()
	h.st.counts["in "+sm.id]++
	for _, k := range sm.order {
		g := sm.gens[k]
		id := sm.ids(k)
		if id.reg != nil {
			h.regs[id.reg] = sm.headValue(h, g)
		}
		// the value at a back edge is base + step*(kappa+1) and has the type:
		// so has the one at the head
		if w, s, ok := intInfo(g.typ); ok && g.kind == "step" {
			v := sm.headValue(h, g).(*Lin)
			t := typeIvl(w, s)
			h.st.f.assumeCmp(v.sub(linBig(t.hi)), opLE)
			h.st.f.assumeCmp(linBig(t.lo).sub(v), opLE)
		}
		if id.reg != nil {
			continue
		}
		v := sm.headValue(h, g)
		sm.put(h.st, id, v)
	}
	if sm.trace != nil {
		h.st.trace = append(h.st.trace[:len(h.st.trace):len(h.st.trace)], &Event{star: sm.trace})
	}
	for k, v := range sm.flags {
		if v == nil {
			delete(h.st.flags, k)
		} else {
			h.st.flags[k] = v
		}
		if k == "short" {
			// a failed read is remembered by an error
			for _, g := range sm.order {
				id := sm.ids(g)
				if sm.shortErr == g && id.reg == nil {
					if x, ok := h.st.getPath(h.st.root(id.obj), locPaths[sm.id+g]).(*IfaceV); ok {
						h.st.flags[k] = h.st.nilCond(x).not()
					}
				}
			}
		}
	}
	for _, k := range sm.order {
		for _, c := range sm.gens[k].cands {
			if !sm.drop[candKey(c)] {
				h.st.f.assumeCmp(c.l, c.op)
			}
		}
	}
	for _, c := range sm.extra {
		if !sm.drop[candKey(c)] {
			h.st.f.assumeCmp(c.l, c.op)
		}
	}
	h.st.adv = map[string]int64{}
	for k, v := range sm.s0.st.adv {
		h.st.adv[k] = v
	}
	for k := range sm.advLow {
		h.st.adv[k] = noAdv
	}
	return h
}

func candKey(c cand) string { return c.l.key + [...]string{"==", "!=", "<="}[c.op] }

var locIDs = map[string]locID{}

func (sm *summary) ids(k string) locID { return locIDs[sm.id+k] }

func (sm *summary) put(st *State, id locID, v Value) {
	path := locPaths[sm.id+id.String()]
	st.mem[id.obj] = st.setPath(st.root(id.obj), path, v)
}

var locPaths = map[string][]Step{}

func (sm *summary) headValue(h *bstate, g *gen) Value {
	switch g.kind {
	case "step":
		return g.base.add(linAtom(sm.kappa).mul(g.step))
	}
	// objects of sequences
	if s, ok := g.val.(*SliceV); ok && g.kind == "seq" {
		h.st.mem[s.ptr.obj] = contArr(s.ptr.obj.typ, g.seq(h))
	}
	return g.val
}

func (g *gen) seq(h *bstate) []*Chunk {
	var cs []*Chunk
	if v, ok := g.init.(*SliceV); ok {
		cs = append(cs, h.st.seg(v)...)
	}
	return append(cs[:len(cs):len(cs)], &Chunk{star: g.star})
}

// leaves lists the differences between two values as paths.
func diffLeaves(a, b Value, path []Step, out func(path []Step, a, b Value)) {
	if a == nil || b == nil {
		return
	}
	if a == b || a.vkey() == b.vkey() {
		return
	}
	if x, ok := a.(*StructV); ok {
		if y, ok := b.(*StructV); ok {
			for i := 0; i < x.t.NumFields(); i++ {
				diffLeaves(x.field(i), y.field(i), append(path[:len(path):len(path)], Step{field: i}), out)
			}
			return
		}
	}
	out(path, a, b)
}

// update generalises what the back edges changed; it says if anything did.
func (sm *summary) update(head *bstate, backs []*bstate) bool {
	changed := false
	type obs struct {
		id   locID
		path []Step
		head Value
		vals map[int]Value
		typ  types.Type
	}
	found := map[string]*obs{}
	var keys []string
	note := func(id locID, path []Step, hv Value, t types.Type) *obs {
		k := id.String()
		o := found[k]
		if o == nil {
			o = &obs{id: id, path: path, head: hv, vals: map[int]Value{}, typ: t}
			found[k] = o
			keys = append(keys, k)
		}
		return o
	}
	for i, b := range backs {
		for _, p := range sm.headPhis() {
			hv, bv := sm.fr.val(head, p), sm.fr.val(b, p)
			if valKey(head.st, hv) != valKey(b.st, bv) || sm.gens[p.Name()] != nil {
				note(locID{reg: p}, nil, hv, p.Type()).vals[i] = bv
			}
		}
		// memory
		var objs []*Obj
		for o := range b.st.mem {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].name < objs[j].name })
		for _, o := range objs {
			_, inHead := head.st.mem[o]
			if !inHead && !o.sym && o.glob == nil {
				continue // allocated by this iteration
			}
			hv := head.st.root(o)
			bv := b.st.mem[o]
			diffLeaves(hv, bv, nil, func(path []Step, x, y Value) {
				t := o.typ
				if !o.elem {
					t = pathType(t, path)
				}
				id := locID{obj: o, path: pathKey(path)}
				note(id, path, x, t).vals[i] = y
			})
		}
		for _, id := range sortedKeys(sm.gens) {
			l := sm.ids(id)
			if l.reg != nil || l.obj == nil {
				continue
			}
			if o := found[id]; o == nil || o.vals[i] == nil {
				p := locPaths[sm.id+id]
				hv := head.st.getPath(head.st.root(l.obj), p)
				bv := b.st.getPath(b.st.root(l.obj), p)
				t := l.obj.typ
				if !l.obj.elem {
					t = pathType(t, p)
				}
				note(l, p, hv, t).vals[i] = bv
			}
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := found[k]
		g := sm.gens[k]
		// objects below a location that is generalised as a sequence
		if g == nil && o.id.obj != nil && sm.seqObj(o.id.obj) {
			continue
		}
		if g == nil {
			g = &gen{kind: "new", typ: o.typ, init: o.head}
			sm.gens[k] = g
			sm.order = append(sm.order, k)
			locIDs[sm.id+k] = o.id
			locPaths[sm.id+o.id.String()] = o.path
			changed = true
		}
		if sm.generalise(k, g, o.vals, head, backs) {
			changed = true
		}
	}
	if changed {
		sort.Strings(sm.order)
	}
	if sm.updateTrace(head, backs) {
		changed = true
	}
	for _, b := range backs {
		if b.st.heldKey() != sm.s0.st.heldKey() {
			sm.fr.e.oblige(b.st, "lockloop", sm.l.header.Instrs[len(sm.l.header.Instrs)-1], false, "locks held differ between iterations: "+b.st.heldKey())
			if sm.fr.e.quiet > 0 {
				b.st.flags["lockloop"] = boolC(true)
			}
		}
		for _, k := range sortedKeys(b.st.adv) {
			v := b.st.adv[k]
			if v < head.st.adv[k] && !sm.advLow[k] {
				sm.advLow[k] = true
				changed = true
			}
		}
		if v, ok := b.st.flags["short"].(*BoolV); ok && b.st.decide(v) != 0 {
			if hv, ok := head.st.flags["short"].(*BoolV); !ok || head.st.decide(hv) != 1 {
				if g := sm.shortHolder(backs); g != sm.shortErr {
					sm.shortErr = g
					changed = true
				}
			}
		}
		for k, v := range b.st.flags {
			hv, ok := head.st.flags[k]
			if ok && hv.vkey() == v.vkey() {
				continue
			}
			if x, isB := v.(*BoolV); isB && k == "short" && b.st.decide(x) == 0 {
				continue // nothing failed
			}
			if x, have := sm.flags[k]; have && x != nil && x.vkey() == v.vkey() {
				continue
			}
			if k == "short" && sm.shortErr != "" && sm.flags[k] != nil {
				continue
			}
			if _, have := sm.flags[k]; !have {
				sm.flags[k] = boolAtom("flag<" + sm.id + ">" + k)
				changed = true
			}
		}
	}
	// invariants
	if changed {
		return true
	}
	if sm.candidates(head, backs) {
		return true
	}
	return false
}

func (sm *summary) seqObj(o *Obj) bool {
	for _, g := range sm.gens {
		if s, ok := g.val.(*SliceV); ok && g.kind == "seq" && s.ptr.obj == o {
			return true
		}
	}
	return false
}

func pathType(t types.Type, path []Step) types.Type {
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.field).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

// generalise adapts the generalisation of a location to the values it has at
// the back edges.
func (sm *summary) generalise(k string, g *gen, vals map[int]Value, head *bstate, backs []*bstate) bool {
	name := "at<" + sm.id + ">" + k
	var idx []int
	for i := range vals {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	toSym := func() bool {
		if g.kind == "sym" {
			return false
		}
		g.kind = "sym"
		if g.typ == nil {
			g.val = &OpaqueV{name}
			return true
		}
		switch x := g.init.(type) {
		case *MapState:
			g.val = &MapState{base: name}
			return true
		case *ChanState:
			g.val = &ChanState{cap: x.cap, closed: "?"}
			for i := range vals {
				if y, ok := vals[i].(*ChanState); ok && x.closed == y.closed {
					g.val = &ChanState{cap: x.cap, closed: x.closed}
				}
			}
			return true
		case *ArrV:
			if len(locPaths[sm.id+k]) == 0 {
				if o := sm.ids(k).obj; o != nil && o.elem {
					g.val = &ArrV{elem: x.elem, base: name}
					return true
				}
			}
		}
		g.val = symValue(name, g.typ)
		return true
	}
	switch g.kind {
	case "sym":
		// facts about nil are kept as candidates
		return sm.nilFacts(g, vals, head, backs)
	case "new":
		switch x := g.init.(type) {
		case *Lin:
			// a constant step?
			var step *big.Int
			ok := true
			for _, i := range idx {
				y, isL := vals[i].(*Lin)
				if !isL {
					ok = false
					break
				}
				d := backs[i].st.f.reduce(y.sub(x))
				if !d.isConst() {
					ok = false
					break
				}
				if step != nil && step.Cmp(d.c) != 0 {
					ok = false
					break
				}
				step = d.c
			}
			if ok && step != nil && step.Sign() != 0 && len(idx) == len(backs) {
				g.kind = "step"
				g.base = x
				g.step = step
				return true
			}
			return sm.toAtom(g, name, x, head)
		case *BufV:
			return sm.bufGen(g, name, x, vals, head, backs)
		case *SliceV:
			return sm.seqGen(g, name, vals, head, backs, toSym)
		}
		toSym()
		sm.nilFacts(g, vals, head, backs)
		return true
	case "step":
		hv := g.base.add(linAtom(sm.kappa).mul(g.step))
		for _, i := range idx {
			y, ok := vals[i].(*Lin)
			if ok && backs[i].st.f.equal(y, hv.add(linBig(g.step))) {
				continue
			}
			return sm.toAtom(g, name, g.base, head)
		}
		return false
	case "int":
		ch := false
		for _, i := range idx {
			y, ok := vals[i].(*Lin)
			if !ok {
				panic(undecided{"integer location changes its kind"})
			}
			r := backs[i].st.f.rng(y.sub(linAtom(g.atom)))
			// increments, for the relation to the number of iterations
			if g.lo == nil && g.hi == nil {
				g.lo, g.hi = r.lo, r.hi
			} else {
				if r.lo == nil || g.lo != nil && r.lo.Cmp(g.lo) < 0 {
					g.lo = r.lo
				}
				if r.hi == nil || g.hi != nil && r.hi.Cmp(g.hi) > 0 {
					g.hi = r.hi
				}
			}
		}
		return ch
	case "buf":
		return sm.bufGen(g, name, g.init.(*BufV), vals, head, backs)
	case "seq":
		return sm.seqGen(g, name, vals, head, backs, toSym)
	}
	return false
}

func (sm *summary) toAtom(g *gen, name string, x *Lin, head *bstate) bool {
	w, s, ok := intInfo(g.typ)
	if !ok {
		w, s = 64, true
	}
	g.kind = "int"
	g.atom = mkAtom(name, w, s)
	g.base = x
	a := linAtom(g.atom)
	g.val = a
	r := sm.s0.st.f.rng(x)
	_ = head
	cs := []cand{{x.sub(a), opLE}, {a.sub(x), opLE}}
	_ = r
	g.cands = append(g.cands, cs...)
	return true
}

// nilFacts keeps that a pointer is not nil.
func (sm *summary) nilFacts(g *gen, vals map[int]Value, head *bstate, backs []*bstate) bool {
	ok := !g.forceNil && sm.s0.st.decide(sm.s0.st.nilCond(g.init)) == 0
	if ok {
		for i, v := range vals {
			if backs[i].st.decide(backs[i].st.nilCond(v)) != 0 {
				ok = false
			}
		}
	}
	was := g.nn
	g.nn = ok
	switch x := g.val.(type) {
	case *PtrV:
		y := *x
		if ok {
			y.nilName = ""
		} else {
			y.nilName = "nil(" + strings.TrimSuffix(x.obj.name, "^") + ")"
		}
		g.val = &y
	case *IfaceV:
		y := *x
		y.nn = ok
		g.val = &y
	case *SliceV:
		y := *x
		if ok {
			y.nilName = ""
		}
		g.val = &y
	case *MapV:
		y := *x
		if ok {
			y.nilName = ""
		}
		g.val = &y
	case *ChanV:
		y := *x
		if ok {
			y.nilName = ""
		}
		g.val = &y
	default:
		return false
	}
	return was && !ok
}

// candidates checks the candidate invariants; it says if some had to go or
// new ones have been found.
func (sm *summary) candidates(head *bstate, backs []*bstate) bool {
	changed := false
	// values of the head's atoms at the back edges
	sub := func(b *bstate, l *Lin) *Lin {
		m := map[*Atom]*Lin{sm.kappa: linAtom(sm.kappa).addC(1)}
		for _, k := range sm.order {
			g := sm.gens[k]
			id := sm.ids(k)
			switch g.kind {
			case "int":
				var v Value
				if id.reg != nil {
					v = sm.fr.val(b, id.reg)
				} else {
					v = b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k])
				}
				if y, ok := v.(*Lin); ok {
					m[g.atom] = y
				}
			case "buf":
				if g.atom != nil {
					if y := sm.bufOff(b, id, k); y != nil {
						m[g.atom] = y
					}
				}
			case "seq":
				if g.star != nil {
					var v Value
					if id.reg != nil {
						v = sm.fr.val(b, id.reg)
					} else {
						v = b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k])
					}
					if y, ok := v.(*SliceV); ok {
						if i, ok := g.init.(*SliceV); ok {
							m[g.star.n.ts[0].a] = y.n.sub(i.n)
						}
					}
				}
			}
		}
		return substLin(l, m)
	}
	init := func(l *Lin) *Lin {
		m := map[*Atom]*Lin{sm.kappa: linC(0)}
		for _, k := range sm.order {
			g := sm.gens[k]
			switch g.kind {
			case "int":
				m[g.atom] = g.base
			case "buf":
				if g.atom != nil {
					m[g.atom] = g.base
				}
				if g.star != nil {
					m[g.star.n.ts[0].a] = linC(0)
				}
			case "seq":
				if g.star != nil {
					m[g.star.n.ts[0].a] = linC(0)
				}
			}
		}
		return substLin(l, m)
	}
	check := func(c cand) {
		if sm.drop[candKey(c)] {
			return
		}
		if sm.s0.st.f.decideCmp(init(c.l), c.op) != 1 {
			sm.drop[candKey(c)] = true
			changed = true
			return
		}
		for _, b := range backs {
			if b.st.f.decideCmp(sub(b, c.l), c.op) != 1 {
				sm.drop[candKey(c)] = true
				changed = true
				return
			}
		}
	}
	for _, k := range sm.order {
		for _, c := range sm.gens[k].cands {
			check(c)
		}
	}
	for _, c := range sm.extra {
		check(c)
	}
	if changed {
		return true
	}
	// new candidates: relations of the increments to the number of iterations,
	// and the bounds known at the back edges, one step on
	add := func(c cand) {
		if len(c.l.ts) == 0 || sm.nxtra[candKey(c)] || sm.drop[candKey(c)] || len(sm.extra) > 60 {
			return
		}
		if sm.s0.st.f.decideCmp(init(c.l), c.op) != 1 {
			return
		}
		sm.nxtra[candKey(c)] = true
		sm.extra = append(sm.extra, c)
		changed = true
	}
	kl := linAtom(sm.kappa)
	for _, k := range sm.order {
		g := sm.gens[k]
		if g.kind == "int" {
			a := linAtom(g.atom)
			if g.hi != nil {
				add(cand{a.sub(g.base).sub(kl.mul(g.hi)), opLE})
			}
			if g.lo != nil {
				add(cand{g.base.add(kl.mul(g.lo)).sub(a), opLE})
			}
		}
	}
	if sm.fr.e.coarse > 0 {
		// a loop over the input ends with the input
		for _, g := range sm.gens {
			if g.kind == "buf" && g.atom != nil {
				return changed
			}
		}
	}
	for _, b := range backs {
		var es []ivEntry
		for _, en := range b.st.f.iv {
			es = append(es, en)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].l.key < es[j].l.key })
		for _, en := range es {
			inc := linC(0)
			uses := false
			foreign := false
			for _, t := range en.l.ts {
				if t.a == sm.kappa && t.hi < 0 {
					uses = true
					inc = linBig(t.coef)
				} else if !sm.known(head, t.a) {
					foreign = true
				}
			}
			if foreign {
				continue
			}
			hasInt := false
			for _, k := range sm.order {
				g := sm.gens[k]
				if g.atom != nil {
					for _, t := range en.l.ts {
						if t.a == g.atom {
							hasInt = true
						}
					}
				}
			}
			if !uses && !hasInt {
				continue
			}
			if hasInt {
				// as it is
				if en.iv.hi != nil {
					add(cand{en.l.sub(linBig(en.iv.hi)), opLE})
					add(cand{en.l.sub(linBig(en.iv.hi)).addC(-1), opLE})
				}
				if en.iv.lo != nil {
					add(cand{linBig(en.iv.lo).sub(en.l), opLE})
				}
				continue
			}
			// l <= c at the back edge: l <= c + inc at the next head
			if en.iv.hi != nil && inc.c.Sign() > 0 {
				add(cand{en.l.sub(linBig(en.iv.hi)).sub(inc), opLE})
			}
			if en.iv.lo != nil && inc.c.Sign() < 0 {
				add(cand{linBig(en.iv.lo).sub(en.l).add(inc), opLE})
			}
		}
	}
	return changed
}

// known says if the atom exists outside of the loop's body.
func (sm *summary) known(head *bstate, a *Atom) bool {
	if a == sm.kappa {
		return true
	}
	if strings.Contains(a.name, "~") {
		if sm.fr.e.coarse > 0 {
			return false
		}
		// made by an operation: only if it was there before the loop
		for _, e := range sm.s0.st.f.iv {
			for _, t := range e.l.ts {
				if t.a == a {
					return true
				}
			}
		}
		return false
	}
	return true
}

func substLin(l *Lin, m map[*Atom]*Lin) *Lin {
	any := false
	for _, t := range l.ts {
		if _, ok := m[t.a]; ok {
			any = true
		}
	}
	if !any {
		return l
	}
	r := linBig(l.c)
	for _, t := range l.ts {
		if x, ok := m[t.a]; ok && t.hi < 0 {
			r = r.add(x.mul(t.coef))
		} else if ok {
			if bits := x.bitsOf(t.a.w); bits != nil {
				r = r.add(linFromBits(bits[t.lo:t.hi+1], false).mul(t.coef))
			} else {
				r = r.add(linAtom(mkAtom(fresh("subst"), 64, true)))
			}
		} else {
			r = r.add(buildLin(bigZero, []LTerm{t}))
		}
	}
	return r
}

// --- sequences

// suffix gives what was put behind the head's chunks.
func suffix(f *Facts, head, back []*Chunk) ([]*Chunk, bool) {
	if len(back) < len(head) {
		return nil, false
	}
	for i := range head {
		if head[i].key() != back[i].key() {
			return nil, false
		}
	}
	return back[len(head):], true
}

func (sm *summary) newStar(name string) *Star {
	return &Star{name: name, kappa: sm.kappa, n: lenAtom("len(" + name + ")")}
}

func altKey(cs []*Chunk, evs []*Event, f *Facts) string {
	s := chunksKey(cs) + "|"
	for _, e := range evs {
		s += e.key() + ";"
	}
	return s
}

func (sm *summary) addAlt(st *Star, cs []*Chunk, evs []*Event, b *State) bool {
	if sm.fr.e.coarse > 0 {
		return false // unknown elements
	}
	k := altKey(cs, evs, nil)
	for i, a := range st.alts {
		if altKey(a.chunks, a.events, nil) == k {
			st.alts[i].f = a.f.join(b.f)
			return false
		}
	}
	st.alts = append(st.alts, StarAlt{chunks: cs, events: evs, f: b.f.clone(), st: b})
	return true
}

// bufOff is the offset of the unread part of a buffer.
func (sm *summary) bufOff(b *bstate, id locID, k string) *Lin {
	v, _ := b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k]).(*BufV)
	if v == nil {
		return nil
	}
	g := sm.gens[k]
	if len(v.cs) == 0 {
		return g.unreadEnd()
	}
	return v.cs[0].off
}

func (g *gen) unreadEnd() *Lin {
	b := g.init.(*BufV)
	return b.cs[len(b.cs)-1].end
}

// readGen: the buffer is only read from.
func (sm *summary) readGen(g *gen, name string, x *BufV) {
	g.kind = "buf"
	g.atom = mkAtomRange("off<"+sm.id+">"+name, 48, false, bigZero, nil)
	g.base = x.cs[0].off
	a := linAtom(g.atom)
	g.val = &BufV{cs: []*Chunk{{arr: x.cs[0].arr, off: a, end: x.cs[0].end}}, anchors: append(x.anchors[:len(x.anchors):len(x.anchors)], a)}
	g.cands = append(g.cands, cand{g.base.sub(a), opLE}, cand{a.sub(x.cs[0].end), opLE})
}

func (sm *summary) bufGen(g *gen, name string, x *BufV, vals map[int]Value, head *bstate, backs []*bstate) bool {
	var idx []int
	for i := range vals {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	if g.kind == "new" {
		// read or written?
		read, written := true, true
		for _, i := range idx {
			b, ok := vals[i].(*BufV)
			if !ok {
				panic(undecided{"buffer changes its kind"})
			}
			if _, ok := suffix(backs[i].st.f, x.cs, b.cs); !ok {
				written = false
			}
			if len(x.cs) != 1 || x.cs[0].arr == nil {
				read = false
				continue
			}
			if len(b.cs) == 0 {
				continue
			}
			if len(b.cs) != 1 || b.cs[0].arr == nil || b.cs[0].arr.vkey() != x.cs[0].arr.vkey() || !backs[i].st.f.equal(b.cs[0].end, x.cs[0].end) {
				read = false
			}
		}
		switch {
		case written:
			g.kind = "buf"
			g.star = sm.newStar("star<" + sm.id + ">" + name)
			g.val = &BufV{cs: append(x.cs[:len(x.cs):len(x.cs)], &Chunk{star: g.star})}
		case read:
			sm.readGen(g, name, x)
		default:
			g.kind = "sym"
			g.val = symValue(name, g.typ)
		}
		return true
	}
	if g.star != nil {
		hv := g.val.(*BufV)
		ch := false
		for _, i := range idx {
			b, ok := vals[i].(*BufV)
			if !ok {
				panic(undecided{"buffer changes its kind"})
			}
			s, ok := suffix(backs[i].st.f, hv.cs, b.cs)
			if !ok {
				g.kind, g.star = "sym", nil
				g.val = symValue(name, g.typ)
				return true
			}
			if sm.addAlt(g.star, s, nil, backs[i].st) {
				ch = true
			}
		}
		return ch
	}
	for _, i := range idx {
		b, ok := vals[i].(*BufV)
		hv := g.val.(*BufV)
		if !ok {
			panic(undecided{"buffer changes its kind"})
		}
		if len(b.cs) == 0 {
			continue
		}
		if len(b.cs) != 1 || b.cs[0].arr == nil || b.cs[0].arr.vkey() != hv.cs[0].arr.vkey() || !backs[i].st.f.equal(b.cs[0].end, hv.cs[0].end) {
			g.kind, g.atom, g.cands = "sym", nil, nil
			g.val = symValue(name, g.typ)
			return true
		}
	}
	return false
}

func (sm *summary) seqGen(g *gen, name string, vals map[int]Value, head *bstate, backs []*bstate, toSym func() bool) bool {
	var idx []int
	for i := range vals {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	// the content at the head
	if g.kind == "new" {
		x := g.init.(*SliceV)
		hs := sm.s0.st.seg(x)
		ok := true
		et := g.typ.Underlying().(*types.Slice).Elem()
		for _, i := range idx {
			y, isS := vals[i].(*SliceV)
			if !isS {
				ok = false
				break
			}
			if y.isNil {
				ok = false
				break
			}
			if _, o := suffix(backs[i].st.f, hs, backs[i].st.seg(y)); !o {
				ok = false
				break
			}
		}
		if !ok {
			toSym()
			sm.nilFacts(g, vals, head, backs)
			return true
		}
		g.kind = "seq"
		g.star = sm.newStar("star<" + sm.id + ">" + name)
		key := "seqloop " + sm.id + name
		o := symObjs[key]
		if o == nil {
			o = &Obj{name: name, typ: et, elem: true}
			symObjs[key] = o
		}
		n := x.n.add(g.star.n)
		nilName := ""
		if x.isNil || x.nilName != "" {
			nilName = "nil(" + name + ")"
		}
		g.val = &SliceV{nilName: nilName, ptr: &PtrV{obj: o}, off: linC(0), n: n, cap: n.add(lenAtom("capx(" + name + ")"))}
		return true
	}
	hs := g.seq(sm.s0)
	ch := false
	hv := g.val.(*SliceV)
	for _, i := range idx {
		y, isS := vals[i].(*SliceV)
		if isS && y.vkey() == hv.vkey() {
			if sm.addAlt(g.star, nil, nil, backs[i].st) {
				ch = true
			}
			continue
		}
		var s []*Chunk
		ok := false
		if isS {
			s, ok = suffix(backs[i].st.f, hs, backs[i].st.seg(y))
		}
		if !ok {
			g.kind, g.star = "new", nil
			toSym()
			sm.nilFacts(g, vals, head, backs)
			return true
		}
		if sm.addAlt(g.star, s, nil, backs[i].st) {
			ch = true
		}
	}
	return ch
}

func (sm *summary) updateTrace(head *bstate, backs []*bstate) bool {
	changed := false
	for _, b := range backs {
		n := len(head.st.trace)
		evs := b.st.trace[n:]
		if len(evs) == 0 && sm.trace == nil {
			continue
		}
		if sm.trace == nil {
			sm.trace = sm.newStar("events<" + sm.id + ">")
			return true
		}
		if sm.addAlt(sm.trace, nil, evs, b.st) {
			changed = true
		}
	}
	return changed
}

// --- termination

// progress says why a back edge can be taken only a bounded number of times.
func (sm *summary) progress(head, b *bstate) string {
	for _, k := range sortedKeys(b.st.adv) {
		v := b.st.adv[k]
		if !sm.advLow[k] && v > head.st.adv[k] {
			for _, o := range sortedObjs(head.st.mem) {
				if k == o.name || strings.HasPrefix(k, o.name+".") || strings.HasPrefix(k, o.name+"[") {
					return "input is consumed"
				}
			}
		}
	}
	for _, k := range sm.order {
		g := sm.gens[k]
		id := sm.ids(k)
		if g.kind == "buf" && g.atom != nil {
			off := sm.bufOff(b, id, k)
			if off != nil && b.st.f.decideCmp(linAtom(g.atom).sub(off).addC(1), opLE) == 1 {
				return "input is consumed"
			}
		}
	}
	// an upper bound of kappa that does not depend on the loop
	for _, e := range sortedMap(b.st.f.iv) {
		for i, t := range e.l.ts {
			if t.a != sm.kappa || t.hi >= 0 {
				continue
			}
			inv := true
			for j, u := range e.l.ts {
				if j != i && !sm.invariant(u.a) {
					inv = false
				}
			}
			if !inv {
				continue
			}
			if t.coef.Sign() > 0 && e.iv.hi != nil || t.coef.Sign() < 0 && e.iv.lo != nil {
				return "a counter has a bound"
			}
		}
	}
	// a variable that moves towards a bound
	for _, k := range sm.order {
		g := sm.gens[k]
		if g.kind != "int" {
			continue
		}
		id := sm.ids(k)
		var v Value
		if id.reg != nil {
			v = sm.fr.val(b, id.reg)
		} else {
			v = b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k])
		}
		y, ok := v.(*Lin)
		if !ok {
			continue
		}
		a := linAtom(g.atom)
		up := g.lo != nil && g.lo.Sign() >= 0 && b.st.f.decideCmp(a.sub(y).addC(1), opLE) == 1
		down := g.hi != nil && g.hi.Sign() <= 0 && b.st.f.decideCmp(y.sub(a).addC(1), opLE) == 1
		for _, e := range sortedMap(b.st.f.iv) {
			for i, t := range e.l.ts {
				if t.a != g.atom || t.hi >= 0 {
					continue
				}
				inv := true
				for j, u := range e.l.ts {
					if j != i && !sm.invariant(u.a) {
						inv = false
					}
				}
				if !inv {
					continue
				}
				hi := t.coef.Sign() > 0 && e.iv.hi != nil || t.coef.Sign() < 0 && e.iv.lo != nil
				lo := t.coef.Sign() > 0 && e.iv.lo != nil || t.coef.Sign() < 0 && e.iv.hi != nil
				if up && hi || down && lo {
					return "a variable moves towards a bound"
				}
			}
		}
	}
	for _, ev := range b.st.trace {
		if ev.kind == "range over map" {
			return "the entries of a map are visited"
		}
	}
	for in := range sm.l.blocks {
		for _, i := range in.Instrs {
			if n, ok := i.(*ssa.Next); ok {
				if n.Block() == sm.l.header {
					return "the entries of a map or a string are visited"
				}
			}
		}
	}
	return ""
}

// invariant says if the atom has the same value in all iterations.
func (sm *summary) invariant(a *Atom) bool {
	if a == sm.kappa {
		return false
	}
	for _, k := range sm.order {
		g := sm.gens[k]
		if g.atom == a {
			return false
		}
		if g.star != nil && len(g.star.n.ts) == 1 && g.star.n.ts[0].a == a {
			return false
		}
		// values that depend on generalised locations
		if g.val != nil && g.atom == nil && g.kind == "sym" && strings.Contains(a.name, "at<"+sm.id+">"+k) {
			return false
		}
	}
	if strings.Contains(a.name, "~") {
		return sm.known(nil, a)
	}
	if strings.Contains(a.name, sm.id) {
		return false
	}
	return true
}

// progressByRerun follows the loop from the state of a back edge: if there is
// no way round it again, the back edge is the last one.
func (sm *summary) progressByRerun(head, b *bstate) string {
	fr := sm.fr
	e := fr.e
	e.quiet++
	nrets := len(fr.rets)
	pend := map[*ssa.BasicBlock][]*bstate{sm.l.header: {b.fork()}}
	_, backs := fr.runRegion(sm.l.order, sm.l, pend)
	fr.rets = fr.rets[:nrets]
	e.quiet--
	for _, b := range backs {
		if sm.progress(head, b) == "" {
			return ""
		}
	}
	if len(backs) > 0 {
		return "input is consumed in two iterations"
	}
	return "the loop ends after the next test"
}

// collectBack forgets what an iteration made and nothing refers to.
func (fr *frame) collectBack(l *Loop, head, b *bstate) {
	before := map[*Obj]bool{}
	for o := range head.st.mem {
		before[o] = true
	}
	var roots TupleV
	for r, v := range b.regs {
		if in, ok := r.(ssa.Instruction); ok && l.blocks[in.Block()] {
			if p, ok := r.(*ssa.Phi); !ok || p.Block() != l.header {
				continue
			}
		}
		roots = append(roots, v)
	}
	for _, d := range b.defers {
		roots = append(roots, d.fn)
		roots = append(roots, d.args...)
	}
	b.st.collect(before, roots, true)
}

// shortHolder finds an error that is set at all back edges after a failed read.
func (sm *summary) shortHolder(backs []*bstate) string {
	for _, k := range sm.order {
		g := sm.gens[k]
		id := sm.ids(k)
		if g.typ == nil || g.typ.String() != "error" || id.reg != nil {
			continue
		}
		all := true
		for _, b := range backs {
			v, ok := b.st.flags["short"].(*BoolV)
			if !ok || b.st.decide(v) == 0 {
				continue
			}
			x, ok := b.st.getPath(b.st.root(id.obj), locPaths[sm.id+k]).(*IfaceV)
			if !ok {
				all = false
				break
			}
			nc := b.st.nilCond(x)
			if b.st.decide(nc) == 0 {
				continue
			}
			// the flag is the error
			if v.vkey() != nc.not().vkey() {
				all = false
				break
			}
		}
		if all {
			return k
		}
	}
	return ""
}
