package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "lockset analysis over SSA with points-to, ownership and publication of objects",
		"two goroutines access the same field, or what it refers to, at least one of them writing: they hold a common lock, or the object is not known to others yet",
		checkRaces)
}

// premises: the specifications of what runs in a package take turns only where
// a goroutine waits; this is justified if data is accessed under locks, and
// waits end.
func (c *Ctx) premises(packages ...string) {
	c.only = func(where string) bool {
		for _, p := range packages {
			if i := strings.LastIndex(where, "/"); p == where[:i+1] {
				return true
			}
		}
		return false
	}
	checkRaces(c)
	checkWaits(c)
	c.only = nil
}

func checkRaces(c *Ctx) {
	f := newFlow(c.p)
	l := newLocks(f)
	p := l.publications()
	by := map[string][]access{}
	for _, a := range l.accesses() {
		by[a.loc] = append(by[a.loc], a)
		if i := strings.LastIndex(a.loc, "."); i > 0 && strings.HasSuffix(a.loc, ".*") {
			// all fields
			continue
		}
	}
	// an access to a whole object is one to each of its fields
	var locs []string
	for k := range by {
		locs = append(locs, k)
	}
	sort.Strings(locs)
	for _, k := range locs {
		if !strings.HasSuffix(k, ".*") {
			continue
		}
		for _, q := range locs {
			if q != k && !strings.HasSuffix(q, "[]") && strings.HasPrefix(q, strings.TrimSuffix(k, "*")) {
				by[q] = append(by[q], by[k]...)
			}
		}
	}
	for _, loc := range locs {
		as := by[loc]
		var live []access
		early := 0
		for _, a := range as {
			if a.owner != nil && p.before(a.owner, a.fn, a.in, map[*ssa.Function]bool{}) {
				early++
				continue
			}
			live = append(live, a)
		}
		writes, shared := 0, 0
		for _, a := range live {
			if a.write {
				writes++
			}
			if a.owner == nil {
				shared++
			}
		}
		if os.Getenv("DBGT") != "" {
			fmt.Println(loc, len(as), "accesses", early, "early", writes, "writes", shared, "shared")
			for _, a := range live {
				fmt.Println("   ", funcName(a.fn), c.p.pos(instrPos(a.in)), a.write, a.owner != nil, a.must)
			}
		}
		c.count("locations", 1)
		c.count("accesses", len(as))
		c.count("accesses before others know the object", early)
		if writes == 0 || shared == 0 {
			continue
		}
		c.count("locations that several goroutines access and change", 1)
		bad := map[string]access{}
		for i, a := range live {
			for _, b := range live[i:] {
				if !a.write && !b.write || a.owner != nil && b.owner != nil || a.must.excludes(b.must) {
					continue
				}
				// the one that holds less is to blame
				x, y := a, b
				if len(x.must) > len(y.must) {
					x, y = y, x
				}
				k := funcName(x.fn)
				if _, ok := bad[k]; !ok {
					bad[k] = x
					c.violate("unsynchronised access", c.p.pos(instrPos(x.in)), k+": "+loc, "%s is accessed with %s here and with %s at %s (%s)", loc, x.must, y.must, c.p.pos(instrPos(y.in)), funcName(y.fn))
				}
			}
		}
		if len(bad) == 0 {
			c.sample("%s: %d accesses under %s", loc, len(live), live[0].must)
		}
	}
	for k, n := range l.taken {
		c.count("lock operations", n)
		_ = k
	}
	c.count("functions", len(f.funcs))
	c.floor("functions", 200)
	c.floor("locations that several goroutines access and change", 1)
}

// --- C04

func checkWaits(c *Ctx) {
	f := newFlow(c.p)
	l := newLocks(f)
	for _, k := range sortedKeys(l.bad) {
		b := l.bad[k]
		c.violate(b.rule, b.where, b.site, "%s", b.text)
	}
	// the order of locks
	next := map[string][]string{}
	for e := range l.order {
		next[e[0]] = append(next[e[0]], e[1])
	}
	for e, in := range l.order {
		if path := cycle(next, e[1], e[0]); path != nil {
			c.violate("lock order", c.p.pos(instrPos(in)), funcName(in.Parent())+": "+e[1], "%s is locked while %s is held; elsewhere they are locked in the order %s", e[1], e[0], strings.Join(append(path, e[1]), ", "))
		}
		c.count("pairs of locks", 1)
	}
	w := &waits{c: c, f: f, l: l}
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				w.instr(fn, in)
			}
		}
	}
	for _, n := range l.taken {
		c.count("lock operations", n)
	}
	c.count("functions", len(f.funcs))
	c.floor("functions", 200)
	c.floor("lock operations", 5)
	c.floor("operations that wait", 5)
}

func cycle(next map[string][]string, from, to string) []string {
	seen := map[string]bool{}
	var find func(a string) []string
	find = func(a string) []string {
		if a == to {
			return []string{a}
		}
		if seen[a] {
			return nil
		}
		seen[a] = true
		for _, n := range next[a] {
			if p := find(n); p != nil {
				return append([]string{a}, p...)
			}
		}
		return nil
	}
	return find(from)
}

type waits struct {
	c *Ctx
	f *flow
	l *locks
}

func (w *waits) instr(fn *ssa.Function, in ssa.Instruction) {
	what := ""
	switch x := in.(type) {
	case *ssa.Send:
		what = "send"
		if !w.sendEnds(x.Chan, fn, in) {
			w.endless(fn, in, "send to "+w.name(x.Chan), "nobody may ever receive")
		}
	case *ssa.UnOp:
		if x.Op.String() != "<-" {
			return
		}
		what = "receive"
		if !w.recvEnds(x.X, fn, in) {
			w.endless(fn, in, "receive from "+w.name(x.X), "nobody may ever send")
		}
	case *ssa.Select:
		if !x.Blocking {
			return
		}
		what = "select"
		ok := false
		for _, s := range x.States {
			if s.Send == nil && w.certain(s.Chan) {
				ok = true
			}
		}
		if !ok {
			w.endless(fn, in, "select", "none of its cases is sure to come")
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return
		}
		what = w.callWaits(x)
		if what == "" {
			return
		}
	default:
		return
	}
	w.c.count("operations that wait", 1)
	if may := w.l.may[in]; len(may) > 0 {
		if s, ok := in.(*ssa.Send); ok && w.token(s.Chan) {
			w.c.count("sends of tokens under a lock (C01)", 1)
			return
		}
		w.c.violate("wait under a lock", w.c.p.pos(instrPos(in)), funcName(fn)+": "+what, "%s may be held while this waits (%s)", may, what)
	}
}

func (w *waits) endless(fn *ssa.Function, in ssa.Instruction, what, why string) {
	w.c.violate("endless wait", w.c.p.pos(instrPos(in)), funcName(fn)+": "+what, "%s: %s", what, why)
}

func (w *waits) callWaits(x ssa.CallInstruction) string {
	cc := x.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() {
		return ""
	}
	if fn := cc.StaticCallee(); fn != nil {
		switch s := fn.String(); {
		case s == "time.Sleep" || s == "(*sync.WaitGroup).Wait" || s == "(*sync.Cond).Wait":
			return "call of " + s
		case strings.HasPrefix(s, "(*net.") && strings.Contains(s, ").Read"):
			return "call of " + s
		}
		return ""
	}
	// a function that the caller of the module gives
	for o := range w.f.get(cc.Value) {
		if o.kind == oCaller {
			return "call of a function of the caller"
		}
	}
	return ""
}

func (w *waits) name(ch ssa.Value) string {
	if u, ok := ch.(*ssa.UnOp); ok {
		if field, _, _, ok := w.f.place(u.X); ok {
			return field
		}
	}
	return "a channel of " + funcName(ch.Parent())
}

// token: a channel of the transaction manager; C01 shows that there is always
// room for what is put back.
func (w *waits) token(ch ssa.Value) bool {
	u, ok := ch.(*ssa.UnOp)
	if !ok {
		return false
	}
	field, _, _, ok := w.f.place(u.X)
	return ok && strings.HasPrefix(field, "tsm.TSM.")
}

// made: the site of a channel that a function has made for itself.
func (w *waits) made(ch ssa.Value) *ssa.MakeChan {
	var site *ssa.MakeChan
	for o := range w.f.get(ch) {
		if o.kind != oFresh {
			return nil
		}
		m, ok := o.site.(*ssa.MakeChan)
		if !ok || site != nil && site != m {
			return nil
		}
		site = m
	}
	return site
}

// sends to a channel that was made at a site.
func (w *waits) sends(m *ssa.MakeChan) (n int, unbounded bool, at []ssa.Instruction) {
	for _, fn := range w.f.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok {
					if sel, ok := in.(*ssa.Select); ok {
						for _, st := range sel.States {
							if st.Send != nil && w.f.get(st.Chan)[origin{kind: oFresh, site: m}] {
								n++
								at = append(at, in)
							}
						}
					}
					continue
				}
				if !w.f.get(s.Chan)[origin{kind: oFresh, site: m}] {
					continue
				}
				n++
				at = append(at, in)
				if reaches(in, in, m) {
					unbounded = true
				}
			}
		}
	}
	return n, unbounded, at
}

func (w *waits) sendEnds(ch ssa.Value, fn *ssa.Function, in ssa.Instruction) bool {
	if w.token(ch) {
		return true
	}
	m := w.made(ch)
	if m == nil {
		return false
	}
	if w.constructor(m, in) {
		return true
	}
	n, unbounded, _ := w.sends(m)
	size, ok := m.Size.(*ssa.Const)
	return ok && !unbounded && size.Int64() >= int64(n)
}

// constructor: a new channel is filled by the function that makes it, see C01.
func (w *waits) constructor(m *ssa.MakeChan, in ssa.Instruction) bool {
	if m.Parent() != in.Parent() {
		return false
	}
	for _, r := range *m.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == m {
			if field, _, _, ok := w.f.place(s.Addr); ok && strings.HasPrefix(field, "tsm.TSM.") {
				return true
			}
		}
	}
	return false
}

// recvEnds: somebody is sure to send, or to close the channel.
func (w *waits) recvEnds(ch ssa.Value, fn *ssa.Function, in ssa.Instruction) bool {
	if w.certain(ch) {
		return true
	}
	m := w.made(ch)
	if m == nil {
		return false
	}
	_, _, at := w.sends(m)
	for _, g := range w.f.gos {
		for _, t := range w.f.targets(g.Common()) {
			for _, s := range at {
				if s.Parent() == t && always(t, s) {
					return true
				}
			}
			for _, b := range t.Blocks {
				for _, i := range b.Instrs {
					if d, ok := i.(*ssa.Defer); ok && always(t, d) {
						if bi, ok := d.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" && w.f.get(d.Call.Args[0])[origin{kind: oFresh, site: m}] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// always: every way through the function passes the instruction.
func always(fn *ssa.Function, in ssa.Instruction) bool {
	if fn.Blocks[0] == in.Block() {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{in.Block(): true}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok && b != fn.Recover {
				return false
			}
		}
		work = append(work, b.Succs...)
	}
	return true
}

// certain: something is received from the channel at last: it is that of a
// timer or of a context that ends, or one that is closed when a function ends.
func (w *waits) certain(ch ssa.Value) bool {
	switch x := ch.(type) {
	case *ssa.ChangeType:
		return w.certain(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.certain(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		cc := x.Common()
		if cc.IsInvoke() {
			return cc.Method.Name() == "Done" && w.ends(cc.Value, map[ssa.Value]bool{})
		}
		fn := cc.StaticCallee()
		return fn != nil && (fn.String() == "time.After" || fn.String() == "time.Tick")
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n := namedStruct(fa.X.Type()); n != nil && n.Obj().Pkg().Path() == "time" {
				return true
			}
		}
		field, _, _, ok := w.f.place(x.X)
		return ok && w.closedAtEnd(field)
	}
	if m := w.made(ch); m != nil {
		return false
	}
	return false
}

// closedAtEnd: a function defers closing the channel of this field, right
// after it has made the object.
func (w *waits) closedAtEnd(field string) bool {
	for _, fn := range w.f.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok || !always(fn, d) {
					continue
				}
				if w.closes(&d.Call, field) {
					return true
				}
				for _, t := range w.f.targets(&d.Call) {
					for _, tb := range t.Blocks {
						for _, i := range tb.Instrs {
							if c, ok := i.(ssa.CallInstruction); ok && w.closes(c.Common(), field) && always(t, i) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (w *waits) closes(cc *ssa.CallCommon, field string) bool {
	b, ok := cc.Value.(*ssa.Builtin)
	if !ok || b.Name() != "close" {
		return false
	}
	u, ok := cc.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	got, _, base, ok := w.f.place(u.X)
	if !ok || got != field {
		return false
	}
	for o := range w.f.get(base) {
		if o.kind == oFresh {
			return true
		}
	}
	return false
}

// ends: a context that ends by itself, or one that the caller of the module
// gives.
func (w *waits) ends(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		fn := c.Common().StaticCallee()
		if fn == nil {
			return false
		}
		switch fn.String() {
		case "context.WithTimeout", "context.WithDeadline", "context.WithTimeoutCause", "context.WithDeadlineCause":
			return true
		case "context.WithCancel", "context.WithCancelCause":
			return w.ends(c.Common().Args[0], seen)
		}
		for _, t := range w.f.targets(c.Common()) {
			for _, b := range t.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !w.ends(r.Results[x.Index], seen) {
					return false
				}
			}
		}
		return len(w.f.targets(c.Common())) > 0
	case *ssa.Call:
		fn := x.Common().StaticCallee()
		if fn == nil {
			return false
		}
		if fn.String() == "context.WithValue" || fn.String() == "context.WithoutCancel" {
			return fn.Name() == "WithValue" && w.ends(x.Common().Args[0], seen)
		}
		ok := false
		for _, t := range w.f.targets(x.Common()) {
			ok = true
			for _, b := range t.Blocks {
				if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && !w.ends(r.Results[0], seen) {
					return false
				}
			}
		}
		return ok
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.ends(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range w.f.callers[fn] {
				if !c.Common().IsInvoke() && i < len(c.Common().Args) && !w.ends(c.Common().Args[i], seen) {
					return false
				}
			}
		}
		return true
	case *ssa.ChangeInterface:
		return w.ends(x.X, seen)
	case *ssa.FreeVar:
		ok := false
		for _, mc := range w.f.closure[x.Parent()] {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					ok = true
					if !w.ends(mc.Bindings[i], seen) {
						return false
					}
				}
			}
		}
		return ok
	case *ssa.UnOp:
		// a captured variable
		var at origins
		at = w.f.get(x.X)
		found := false
		for o := range at {
			a, ok := o.site.(*ssa.Alloc)
			if o.kind != oFresh || !ok {
				return false
			}
			for _, fn := range w.f.funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && w.f.get(s.Addr)[origin{kind: oFresh, site: a}] {
							found = true
							if !w.ends(s.Val, seen) {
								return false
							}
						}
					}
				}
			}
		}
		return found
	}
	return false
}

func init() {
	register("C04", "lockset and lock-order analysis over SSA, with what can end each wait",
		"no operation waits while a lock is held, locks are released on every path and taken in one order, and something is sure to end every wait",
		checkWaits)
}
