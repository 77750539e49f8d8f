package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks that are held, and what is done with them.

type lockset map[string]byte // class of lock -> 'w' or 'r'

func (l lockset) key() string {
	var s []string
	for k, m := range l {
		s = append(s, k+string(m))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (l lockset) clone() lockset {
	n := lockset{}
	for k, m := range l {
		n[k] = m
	}
	return n
}

func (l lockset) meet(o lockset) lockset {
	n := lockset{}
	for k, m := range l {
		if q, ok := o[k]; ok {
			if q == 'r' {
				m = 'r'
			}
			n[k] = m
		}
	}
	return n
}

func (l lockset) join(o lockset) lockset {
	n := l.clone()
	for k, m := range o {
		if n[k] != 'w' {
			n[k] = m
		}
	}
	return n
}

// excludes: two accesses under these locks do not happen at the same time.
func (l lockset) excludes(o lockset) bool {
	for k, m := range l {
		if q, ok := o[k]; ok && (m == 'w' || q == 'w') {
			return true
		}
	}
	return false
}

func (l lockset) String() string {
	var s []string
	for k := range l {
		s = append(s, k)
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "no lock"
	}
	return strings.Join(s, ", ")
}

type lockState struct {
	must, may lockset
	defers    []*ssa.Defer
}

func (s *lockState) clone() *lockState {
	return &lockState{s.must.clone(), s.may.clone(), append([]*ssa.Defer{}, s.defers...)}
}

func (s *lockState) key() string { return s.must.key() + "|" + s.may.key() }

func (s *lockState) merge(o *lockState) (*lockState, bool) {
	n := &lockState{s.must.meet(o.must), s.may.join(o.may), append([]*ssa.Defer{}, s.defers...)}
	for _, d := range o.defers {
		has := false
		for _, e := range s.defers {
			has = has || e == d
		}
		if !has {
			n.defers = append(n.defers, d)
		}
	}
	return n, n.key() != s.key() || len(n.defers) != len(s.defers)
}

type lockFinding struct{ rule, where, site, text string }

type locks struct {
	f      *flow
	must   map[ssa.Instruction]lockset
	may    map[ssa.Instruction]lockset
	memo   map[string]*lockState // exit states
	active map[string]bool
	order  map[[2]string]ssa.Instruction
	taken  map[string]int // lock operations by class
	bad    map[string]lockFinding
	opOf   map[ssa.Instruction]string
}

func newLocks(f *flow) *locks {
	l := &locks{f: f, must: map[ssa.Instruction]lockset{}, may: map[ssa.Instruction]lockset{}, memo: map[string]*lockState{},
		active: map[string]bool{}, order: map[[2]string]ssa.Instruction{}, taken: map[string]int{}, bad: map[string]lockFinding{}}
	for _, fn := range f.funcs {
		if f.entry[fn] || f.async[fn] || len(f.callers[fn]) == 0 && fn.Parent() == nil {
			l.root(fn)
		}
	}
	// functions that only the caller of the module calls
	for _, fn := range f.funcs {
		if len(fn.Blocks) > 0 && len(fn.Blocks[0].Instrs) > 0 && l.must[fn.Blocks[0].Instrs[0]] == nil {
			l.root(fn)
		}
	}
	return l
}

func (l *locks) root(fn *ssa.Function) {
	exit := l.run(fn, &lockState{must: lockset{}, may: lockset{}})
	if exit == nil {
		return
	}
	for k := range exit.may {
		l.report("lock kept", fn, nil, k, fmt.Sprintf("%s may still be held when %s returns", k, funcName(fn)))
	}
}

func (l *locks) report(rule string, fn *ssa.Function, in ssa.Instruction, what, text string) {
	where := l.f.p.pos(fn.Pos())
	if in != nil {
		where = l.f.p.pos(instrPos(in))
	}
	s := funcName(fn) + ": " + what
	l.bad[rule+" @ "+s] = lockFinding{rule, where, s, text}
}

// lockOp: an operation on a lock, and the class of the lock.
func (l *locks) lockOp(cc *ssa.CallCommon) (op, class string) {
	name := ""
	var arg ssa.Value
	if cc.IsInvoke() {
		if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
			return "", ""
		}
		name, arg = cc.Method.Name(), cc.Value
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			arg = mi.X
		}
	} else {
		fn := cc.StaticCallee()
		if fn == nil {
			return "", ""
		}
		s := fn.String()
		switch {
		case strings.HasPrefix(s, "(*sync.Mutex)."):
			name = s[len("(*sync.Mutex)."):]
		case strings.HasPrefix(s, "(*sync.RWMutex)."):
			name = s[len("(*sync.RWMutex)."):]
		default:
			return "", ""
		}
		arg = cc.Args[0]
	}
	switch name {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
	default:
		return "", ""
	}
	return name, l.class(arg)
}

func (l *locks) class(a ssa.Value) string {
	if u, ok := a.(*ssa.UnOp); ok {
		a = u.X
	}
	if field, _, _, ok := l.f.place(a); ok {
		return field
	}
	// a lock of its own
	var names []string
	for o := range l.f.get(a) {
		switch o.kind {
		case oFresh:
			names = append(names, fmt.Sprintf("%s of %s", o.site.Name(), funcName(o.site.Parent())))
		case oContent:
			names = append(names, o.field)
		}
	}
	sort.Strings(names)
	if len(names) == 1 {
		return names[0]
	}
	return "unknown lock " + a.Name() + " of " + funcName(a.Parent())
}

func (l *locks) apply(s *lockState, op, class string, fn *ssa.Function, in ssa.Instruction) {
	switch op {
	case "Lock", "RLock":
		for k := range s.may {
			if k == class && s.must[k] == 0 {
				continue
			}
			if k == class && op == "RLock" && s.must[k] == 'r' {
				continue
			}
			e := [2]string{k, class}
			if l.order[e] == nil {
				l.order[e] = in
			}
		}
		l.taken[class]++
		m := byte('w')
		if op == "RLock" {
			m = 'r'
		}
		s.must[class], s.may[class] = m, m
	case "Unlock", "RUnlock":
		if s.may[class] == 0 {
			l.report("unlock without lock", fn, in, class, class+" is unlocked but not held")
		}
		delete(s.must, class)
		delete(s.may, class)
	}
}

// run follows a function from a state and returns the state at its end; nil if
// it does not return.
func (l *locks) run(fn *ssa.Function, entry *lockState) *lockState {
	start := &lockState{must: entry.must.clone(), may: entry.may.clone()}
	key := fn.String() + "|" + fmt.Sprint(fn.Pos()) + "|" + start.key()
	if e, ok := l.memo[key]; ok {
		return e
	}
	if l.active[key] {
		return start // recursion
	}
	l.active[key] = true
	defer delete(l.active, key)
	in := map[*ssa.BasicBlock]*lockState{fn.Blocks[0]: start}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil {
		in[fn.Recover] = &lockState{must: lockset{}, may: lockset{}}
	}
	var exit *lockState
	exits := map[*ssa.BasicBlock]*lockState{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		for _, i := range b.Instrs {
			l.instr(fn, i, s)
		}
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				exits[b] = s
			}
		}
		for _, t := range b.Succs {
			if t == fn.Recover {
				continue
			}
			o := s
			if in[t] == nil {
				in[t] = o.clone()
				work = append(work, t)
				continue
			}
			if m, ch := in[t].merge(o); ch {
				in[t] = m
				work = append(work, t)
			}
		}
	}
	for b, s := range exits {
		if b == fn.Recover {
			continue
		}
		if exit == nil {
			exit = s.clone()
		} else {
			exit, _ = exit.merge(s)
		}
	}
	if exit != nil {
		exit.defers = nil
	}
	l.memo[key] = exit
	return exit
}

func (l *locks) note(in ssa.Instruction, s *lockState) {
	if l.must[in] == nil {
		l.must[in], l.may[in] = s.must.clone(), s.may.clone()
		return
	}
	l.must[in] = l.must[in].meet(s.must)
	l.may[in] = l.may[in].join(s.may)
}

func (l *locks) instr(fn *ssa.Function, in ssa.Instruction, s *lockState) {
	l.note(in, s)
	switch x := in.(type) {
	case *ssa.Defer:
		for _, d := range s.defers {
			if d == x {
				return
			}
		}
		s.defers = append(s.defers, x)
	case *ssa.RunDefers:
		for i := len(s.defers) - 1; i >= 0; i-- {
			l.note(s.defers[i], s)
			l.callAt(fn, s.defers[i], s)
		}
		s.defers = nil
	case *ssa.Call:
		l.callAt(fn, x, s)
	}
}

func (l *locks) callAt(fn *ssa.Function, c ssa.CallInstruction, s *lockState) {
	cc := c.Common()
	if op, class := l.lockOp(cc); op != "" {
		l.apply(s, op, class, fn, c)
		return
	}
	ts := l.f.targets(cc)
	var out *lockState
	for _, t := range ts {
		e := l.run(t, s)
		if e == nil {
			continue
		}
		if out == nil {
			out = e.clone()
		} else {
			out, _ = out.merge(e)
		}
	}
	if out != nil {
		s.must, s.may = out.must, out.may
	}
}

// --- accesses

type access struct {
	loc   string
	owner ssa.Value // the site of an object of its own; nil: shared
	write bool
	fn    *ssa.Function
	in    ssa.Instruction
	must  lockset
}

func (l *locks) accesses() []access {
	var out []access
	for _, fn := range l.f.funcs {
		if fn.Synthetic != "" || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if l.must[in] == nil {
					continue
				}
				for _, a := range l.accessesOf(fn, in) {
					out = append(out, a)
				}
			}
		}
	}
	return out
}

func (l *locks) accessesOf(fn *ssa.Function, in ssa.Instruction) []access {
	var out []access
	add := func(loc string, owner ssa.Value, write bool) {
		out = append(out, access{loc, owner, write, fn, in, l.must[in]})
	}
	// addr: an access through an address
	addr := func(a ssa.Value, write bool) {
		if field, typ, base, ok := l.f.place(a); ok {
			if typ != nil && isSyncType(typ) {
				return
			}
			if g, ok := base.(*ssa.Global); ok {
				_ = g
				add(field, nil, write)
				return
			}
			for o := range l.f.get(base) {
				switch o.kind {
				case oFresh:
					add(field, o.site, write)
				default:
					add(field, nil, write)
				}
			}
			return
		}
		if n := l.f.sharedPtr(a.Type()); n != nil {
			for o := range l.f.get(a) {
				if o.kind == oFresh {
					add(sharedName(n)+".*", o.site, write)
				} else {
					add(sharedName(n)+".*", nil, write)
				}
			}
			return
		}
		for o := range l.f.get(a) {
			if o.kind == oContent {
				add(o.field+"[]", o.site, write)
			}
		}
	}
	content := func(v ssa.Value, write bool) {
		for o := range l.f.get(v) {
			if o.kind == oContent {
				add(o.field+"[]", o.site, write)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		addr(x.Addr, true)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			addr(x.X, false)
		}
	case *ssa.Lookup:
		content(x.X, false)
	case *ssa.MapUpdate:
		content(x.Map, true)
	case *ssa.Next:
		content(x.Iter, false)
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return nil
		}
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if !bound(cc.Args[0]) {
					content(cc.Args[0], true)
				}
				if len(cc.Args) > 1 {
					content(cc.Args[1], false)
				}
			case "copy":
				content(cc.Args[0], true)
				content(cc.Args[1], false)
			case "delete", "clear":
				content(cc.Args[0], true)
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					content(cc.Args[0], false)
				}
			}
			return out
		}
		if op, _ := l.lockOp(cc); op != "" || len(l.f.targets(cc)) > 0 || cc.IsInvoke() {
			return nil
		}
		fn := cc.StaticCallee()
		write := false
		if fn != nil {
			if strings.HasPrefix(fn.String(), "(*sync.") || strings.HasPrefix(fn.String(), "sync/atomic.") || strings.HasPrefix(fn.String(), "(*sync/atomic.") {
				return nil
			}
			o := fn
			if fn.Origin() != nil {
				o = fn.Origin()
			}
			if o.Pkg != nil {
				switch o.Pkg.Pkg.Path() {
				case "slices":
					switch o.Name() {
					case "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc", "Sort", "SortFunc", "SortStableFunc", "Reverse":
						write = true
					}
				case "maps":
					write = o.Name() == "DeleteFunc" || o.Name() == "Copy"
				case "sort":
					write = true
				}
			}
		}
		for i, a := range cc.Args {
			switch a.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				content(a, write)
			case *types.Pointer:
				w, ok := unsafeMethod(fn)
				if i != 0 || !ok {
					continue
				}
				if _, _, _, ok := l.f.place(a); ok {
					addr(a, w) // it is a part of a shared object
					continue
				}
				for o := range l.f.get(a) {
					if o.kind == oContent && !l.f.foreign[o.field] {
						add(o.field+"[]", o.site, w)
					}
				}
			}
		}
	}
	return out
}

// unsafeMethod says if this is a method of a type of the standard library that
// must not be used by several goroutines at once, and if it changes the object.
func unsafeMethod(fn *ssa.Function) (write, ok bool) {
	if fn == nil || fn.Signature.Recv() == nil {
		return false, false
	}
	p, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok {
		return false, false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false, false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.Reader", "bufio.Writer", "bufio.Scanner",
		"container/list.List", "container/ring.Ring", "encoding/json.Encoder", "encoding/json.Decoder":
	default:
		return false, false
	}
	switch fn.Name() {
	case "Len", "Cap", "Bytes", "String", "Size", "Front", "Back", "Available", "Buffered":
		return false, true
	}
	return true, true
}

// bound: a slice without room for more, x[:n:n].
func bound(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.Max == s.High
}

// --- publication

type publications struct {
	l  *locks
	at map[ssa.Value][]ssa.Instruction // where an object becomes known to other goroutines
	in map[ssa.Value]map[*ssa.Function]bool
}

func (l *locks) publications() *publications {
	p := &publications{l: l, at: map[ssa.Value][]ssa.Instruction{}}
	f := l.f
	pub := func(in ssa.Instruction, v origins) bool {
		ch := false
		for s := range f.reach(v) {
			has := false
			for _, i := range p.at[s] {
				has = has || i == in
			}
			if !has {
				p.at[s] = append(p.at[s], in)
				ch = true
			}
		}
		return ch
	}
	foreign := func(os origins) bool {
		for o := range os {
			switch o.kind {
			case oShared, oCaller:
				return true
			case oContent:
				if o.site == nil || len(p.at[o.site]) > 0 {
					return true
				}
			case oFresh:
				if len(p.at[o.site]) > 0 {
					return true
				}
			}
		}
		return false
	}
	for {
		ch := false
		for _, fn := range f.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						a := x.Addr
						if _, _, base, ok := f.place(a); ok {
							a = base
						}
						if holds(x.Val.Type()) && foreign(f.get(a)) {
							ch = pub(in, f.get(x.Val)) || ch
						}
					case *ssa.MapUpdate:
						if foreign(f.get(x.Map)) {
							ch = pub(in, f.get(x.Value)) || ch
							ch = pub(in, f.get(x.Key)) || ch
						}
					case *ssa.Send:
						ch = pub(in, f.get(x.X)) || ch
					case *ssa.Select:
						for _, s := range x.States {
							if s.Send != nil {
								ch = pub(in, f.get(s.Send)) || ch
							}
						}
					case *ssa.Go:
						for _, a := range x.Call.Args {
							ch = pub(in, f.get(a)) || ch
						}
						ch = pub(in, f.get(x.Call.Value)) || ch
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	// the functions in which an object becomes known
	p.in = map[ssa.Value]map[*ssa.Function]bool{}
	for s, ins := range p.at {
		m := map[*ssa.Function]bool{}
		var up func(fn *ssa.Function)
		up = func(fn *ssa.Function) {
			if m[fn] {
				return
			}
			m[fn] = true
			if fn == s.Parent() {
				// the caller gets the object with the result
			}
			for _, c := range f.callers[fn] {
				if _, ok := c.(*ssa.Go); !ok {
					up(c.Parent())
				}
			}
		}
		for _, i := range ins {
			up(i.Parent())
		}
		p.in[s] = m
	}
	return p
}

// before: no other goroutine can know the object yet when the instruction runs.
func (p *publications) before(s ssa.Value, fn *ssa.Function, in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	defer delete(seen, fn)
	var events []ssa.Instruction
	for _, i := range p.at[s] {
		if i.Parent() == fn {
			events = append(events, i)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				continue
			}
			for _, t := range p.l.f.targets(c.Common()) {
				if p.in[s][t] {
					events = append(events, i)
					break
				}
			}
		}
	}
	alloc, _ := s.(ssa.Instruction)
	for _, e := range events {
		if e != in && reaches(e, in, alloc) {
			return false
		}
		if e == in && alloc != nil && alloc.Parent() != fn && reaches(e, in, alloc) {
			return false
		}
	}
	if s.Parent() == fn {
		return true
	}
	// who else can have it before
	got := false
	for _, v := range append(paramValues(fn), freeValues(fn)...) {
		for x := range p.l.f.reach(p.l.f.get(v)) {
			got = got || x == s
		}
	}
	if !got {
		return true
	}
	for _, c := range p.l.f.callers[fn] {
		if _, ok := c.(*ssa.Go); ok {
			return false
		}
		if !p.before(s, c.Parent(), c, seen) {
			return false
		}
	}
	return true
}

func paramValues(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, p := range fn.Params {
		out = append(out, p)
	}
	return out
}

func freeValues(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, p := range fn.FreeVars {
		out = append(out, p)
	}
	return out
}

// reaches: to can run after from, without passing the instruction that makes
// the object again.
func reaches(from, to, again ssa.Instruction) bool {
	fb, tb := from.Block(), to.Block()
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	if fb == tb && idx(from) < idx(to) {
		if again == nil || again.Block() != fb || idx(again) < idx(from) || idx(again) > idx(to) {
			return true
		}
	}
	if again != nil && again.Block() == fb && idx(again) > idx(from) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, fb.Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := again != nil && again.Block() == b
		if b == tb && (!stop || idx(again) > idx(to)) {
			return true
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	return false
}
