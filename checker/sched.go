package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines that start later: they run, one after the other and each as far
// as it comes, when the one that runs has to wait.

type pendingGo struct {
	in   ssa.CallInstruction
	f    Value
	args []Value
}

// runPending runs a goroutine that has not started yet. A goroutine that
// waits for ever is left alone if the specification says so.
func (fr *frame) runPending(bs *bstate, i int) []*State {
	st := bs.st.clone()
	p := st.pending[i]
	st.pending = append(append([]pendingGo{}, st.pending[:i]...), st.pending[i+1:]...)
	e := fr.e
	parked := e.parked
	e.parked = nil
	e.inGo++
	defer func() { e.inGo--; e.parked = parked }()
	n := &bstate{st: st, regs: bs.regs}
	var out []*State
	for _, o := range fr.doCall(n.regsCopy(), p.in, p.f, p.args) {
		out = append(out, o.st)
	}
	return append(out, e.parked...)
}

// whileWaiting: what other goroutines do while this one waits. ok: they do
// something first; the instruction is tried again after it.
func (fr *frame) whileWaiting(bs *bstate, in ssa.Instruction, again func(*bstate) []*bstate) (out []*bstate, ok bool) {
	e := fr.e
	if !e.late || len(bs.st.pending) == 0 || e.waitDepth > 60 {
		return nil, false
	}
	n := len(bs.st.pending)
	if n > 2 || bs.st.flags["in turn"] != nil {
		n = 1
	}
	e.waitDepth++
	defer func() { e.waitDepth-- }()
	for i := 0; i < n; i++ {
		for _, s := range fr.runPending(bs, i) {
			m := (&bstate{st: s, regs: bs.regs, defers: bs.defers}).regsCopy()
			out = append(out, again(m)...)
		}
	}
	return out, true
}

// park leaves a goroutine waiting for ever.
func (fr *frame) park(bs *bstate) bool {
	e := fr.e
	if !e.late || e.inGo == 0 || bs.st.flags["hold"] == nil {
		return false
	}
	e.parked = append(e.parked, bs.st.clone())
	return true
}

// settle runs the goroutines that have not started.
func (fr *frame) settle(bs *bstate) []*State {
	work := []*State{bs.st}
	var out []*State
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if len(s.pending) == 0 {
			out = append(out, s)
			continue
		}
		work = append(work, fr.runPending(&bstate{st: s, regs: bs.regs}, 0)...)
	}
	return out
}

// held counts what can be reached from a value: the elements of slices and
// maps, or the values that wait in channels.
func (st *State) heldBy(v Value, queued bool, seen map[*Obj]bool) int {
	n := 0
	switch x := v.(type) {
	case *PtrV:
		if x.isNil || x.obj == nil || seen[x.obj] {
			return 0
		}
		seen[x.obj] = true
		return st.heldBy(st.root(x.obj), queued, seen)
	case *IfaceV:
		if x.v != nil {
			return st.heldBy(x.v, queued, seen)
		}
	case *StructV:
		for i := 0; i < x.t.NumFields(); i++ {
			// not within types of other modules
			if f, ok := types.Unalias(x.t.Field(i).Type()).(*types.Named); ok && f.Obj().Pkg() != nil && !strings.HasPrefix(f.Obj().Pkg().Path(), modulePath) {
				continue
			}
			n += st.heldBy(x.field(i), queued, seen)
		}
	case *SliceV:
		if x.isNil {
			return 0
		}
		k, ok := st.f.reduce(x.n).intConst()
		if !ok {
			panic(undecided{"unknown length " + x.vkey()})
		}
		if !queued {
			n += k
		}
		for i := 0; i < k; i++ {
			if a, ok := st.load(x.ptr).(*ArrV); ok {
				n += st.heldBy(a.get(st.f, x.off.add(linC(int64(i)))), queued, seen)
			}
		}
	case *MapV:
		if x.isNil || x.obj == nil {
			return 0
		}
		ms, ok := st.root(x.obj).(*MapState)
		if !ok {
			return 0
		}
		for _, e := range ms.ents {
			if !e.present {
				continue
			}
			if !queued {
				n++
			}
			n += st.heldBy(e.v, queued, seen)
		}
	case *ChanV:
		if cs := st.chanState(x); cs != nil && queued && !seen[x.obj] {
			seen[x.obj] = true
			n += len(cs.queue)
		}
	}
	return n
}
