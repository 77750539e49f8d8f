package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Field invariants: what every store in the module to an unexported field (or a
// field of an unexported struct) establishes. A field is never nil if all
// stores to it are of values that are not nil, and every place that makes the
// struct stores to it.

type invariants struct {
	p                  *Program
	stores             map[fieldID][]ssa.Value // values stored to a field
	storeAt            map[fieldID][]*ssa.Store
	proved             map[*ssa.Store]bool
	allocs             map[*types.Named][]*ssa.Alloc
	puts               map[fieldID][]ssa.Value // sync.Pool fields: values that are put
	maps               map[fieldID][]ssa.Value // map fields: values of entries
	elems              map[fieldID][]ssa.Value // stores to the elements of a slice field
	badElems, elemSeen map[fieldID]bool
	memo               map[fieldID]int
	nnMemo             map[ssa.Value]int
	used               map[string]bool
}

type fieldID struct {
	n *types.Named
	i int
}

func namedStruct(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

func fieldOf(a ssa.Value) (fieldID, bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if n := namedStruct(x.X.Type()); n != nil {
			return fieldID{n, x.Field}, true
		}
	case *ssa.Field:
		if n := namedStruct(x.X.Type()); n != nil {
			return fieldID{n, x.Field}, true
		}
	}
	return fieldID{}, false
}

// loadedField says of which field a value was loaded.
func loadedField(v ssa.Value) (fieldID, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		return fieldOf(x.X)
	case *ssa.Field:
		return fieldOf(x)
	}
	return fieldID{}, false
}

func (p *Program) invariants() *invariants {
	if p.inv != nil {
		return p.inv
	}
	iv := &invariants{p: p, storeAt: map[fieldID][]*ssa.Store{}, proved: map[*ssa.Store]bool{}, stores: map[fieldID][]ssa.Value{}, allocs: map[*types.Named][]*ssa.Alloc{}, puts: map[fieldID][]ssa.Value{},
		maps: map[fieldID][]ssa.Value{}, elems: map[fieldID][]ssa.Value{}, badElems: map[fieldID]bool{}, elemSeen: map[fieldID]bool{}, memo: map[fieldID]int{}, nnMemo: map[ssa.Value]int{}, used: map[string]bool{}}
	p.inv = iv
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if f, ok := fieldOf(x.Addr); ok {
						iv.stores[f] = append(iv.stores[f], x.Val)
						iv.storeAt[f] = append(iv.storeAt[f], x)
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if f, ok := loadedField(ia.X); ok {
							if cutOff(x, f) {
								continue
							}
							iv.elems[f] = append(iv.elems[f], x.Val)
						}
					}
				case *ssa.Alloc:
					if n := namedStruct(x.Type()); n != nil {
						iv.allocs[n] = append(iv.allocs[n], x)
					}
				case *ssa.MapUpdate:
					if f, ok := loadedField(x.Map); ok {
						iv.maps[f] = append(iv.maps[f], x.Value)
					}
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && c.RelString(nil) == "(*sync.Pool).Put" {
						if f, ok := fieldOf(x.Common().Args[0]); ok {
							iv.puts[f] = append(iv.puts[f], x.Common().Args[1])
						}
					}
				}
			}
		}
	}
	return iv
}

// hidden says if only the module can set the field.
func (f fieldID) hidden() bool {
	s := f.n.Underlying().(*types.Struct)
	return !s.Field(f.i).Exported() || !f.n.Obj().Exported()
}

func (iv *invariants) fieldNonNil(f fieldID) bool {
	switch iv.memo[f] {
	case 1:
		return true
	case 2:
		return false
	}
	iv.memo[f] = 1 // inductive
	ok := f.hidden() && len(iv.stores[f]) > 0
	for _, s := range iv.storeAt[f] {
		ok = ok && (iv.nonNil(s.Val) || iv.provedStore(s))
	}
	// every struct gets a value where it is made
	for _, a := range iv.allocs[f.n] {
		ok = ok && initialises(a, f.i)
	}
	if !ok {
		iv.memo[f] = 2
	}
	return ok
}

// provedStore: no path of the function, on any arguments, stores nil.
func (iv *invariants) provedStore(s *ssa.Store) bool {
	if r, ok := iv.proved[s]; ok {
		return r
	}
	iv.proved[s] = true // inductive
	ok := func() (ok bool) {
		fn := s.Parent()
		for fn.Parent() != nil {
			return false // a closure: what it captures is not known
		}
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(undecided); !is {
					panic(r)
				}
				ok = false
			}
		}()
		e := newEngine(iv.p)
		e.coarse = 4
		e.maxSteps = 400000
		e.storesNonNil = map[*ssa.Store]bool{s: true}
		st := newState()
		e.callFn(st, fn, e.genericArgs(st, fn), nil, nil)
		for _, o := range e.oblSeq {
			if o.kind == "stored" && (o.failed > 0 || o.ok == 0) {
				return false
			}
		}
		return e.reached(s)
	}()
	iv.proved[s] = ok
	return ok
}

// reached says if the engine came to a store.
func (e *Engine) reached(s *ssa.Store) bool {
	for _, o := range e.oblSeq {
		if o.kind == "stored" && o.instr == ssa.Instruction(s) {
			return true
		}
	}
	return false
}

// initialises says if the struct is filled where it is allocated.
func initialises(a *ssa.Alloc, field int) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == x && (s.Block() == a.Block() || len(a.Parent().Blocks) == 1) {
					return true
				}
			}
		case *ssa.Store:
			if x.Addr == a {
				return true // a copy of a whole struct
			}
		}
	}
	return false
}

func (iv *invariants) nonNil(v ssa.Value) bool {
	switch iv.nnMemo[v] {
	case 1:
		return true
	case 2:
		return false
	}
	iv.nnMemo[v] = 1
	ok := iv.nonNil1(v)
	if !ok {
		iv.nnMemo[v] = 2
	}
	return ok
}

func (iv *invariants) nonNil1(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.Global:
		return true
	case *ssa.ChangeType:
		return iv.nonNil(x.X)
	case *ssa.ChangeInterface:
		return iv.nonNil(x.X)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !checkedNonNil(e, x.Block().Preds[i], x.Block()) && !iv.nonNil(e) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		// a collaborator that the caller provides
		_, isI := x.Type().Underlying().(*types.Interface)
		if isI {
			iv.used["the "+shortType(x.Type())+" given to "+x.Parent().Name()+" is not nil"] = true
			return true
		}
		return iv.callersNonNil(x)
	case *ssa.FreeVar:
		return iv.boundNonNil(x)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false
		}
		if fn.Pkg == nil || len(fn.Blocks) == 0 || !iv.p.inModule(fn) {
			return fn.Name() == "New" || fn.Name() == "WithTimeout"
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !iv.returnNonNil(r) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp:
		if f, ok := fieldOf(x.X); ok {
			return iv.fieldNonNil(f)
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if _, isP := x.Type().Underlying().(*types.Pointer); isP {
				return iv.elemsNonNil(ia.X, map[ssa.Value]bool{})
			}
		}
		// a local variable
		if a := iv.cellOf(x.X); a != nil {
			return iv.cellNonNil(a)
		}
	case *ssa.Lookup:
		// only asked for entries that are there
		if f, ok := loadedField(x.X); ok && f.hidden() && len(iv.maps[f]) > 0 {
			for _, e := range iv.maps[f] {
				if !iv.nonNil(e) {
					return false
				}
			}
			return x.CommaOk
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return x.Index == 0 && iv.nonNil(t)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				if f, ok := loadedField(r.X); ok && f.hidden() && len(iv.maps[f]) > 0 {
					for _, e := range iv.maps[f] {
						if !iv.nonNil(e) {
							return false
						}
					}
					return true
				}
			}
		case *ssa.TypeAssert:
			return x.Index == 0 && iv.nonNil(t)
		case *ssa.Call:
			return x.Index == 0 && iv.resultNonNil(t)
		}
	case *ssa.TypeAssert:
		if vs := iv.pooled(x.X); vs != nil {
			for _, v := range vs {
				m, ok := v.(*ssa.MakeInterface)
				if !ok || !iv.nonNil(m.X) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// checkedNonNil: the value was compared with nil on every way that ends with
// the edge from p to b.
func checkedNonNil(v ssa.Value, p, b *ssa.BasicBlock) bool {
	for {
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			if c, ok := i.Cond.(*ssa.BinOp); ok && (c.Op == token.NEQ || c.Op == token.EQL) {
				x := c.X
				k, ok := c.Y.(*ssa.Const)
				if !ok {
					x = c.Y
					k, ok = c.X.(*ssa.Const)
				}
				way := 0
				if c.Op == token.EQL {
					way = 1
				}
				if ok && k.IsNil() && p.Succs[way] == b && sameLoad(x, v, c, b) {
					return true
				}
			}
		}
		if len(p.Preds) != 1 {
			return false
		}
		p, b = p.Preds[0], p
	}
}

// sameLoad: v is x, or a field is loaded again, without a call or store between.
func sameLoad(x, v ssa.Value, cmp *ssa.BinOp, next *ssa.BasicBlock) bool {
	if x == v {
		return true
	}
	a, ok1 := x.(*ssa.UnOp)
	b, ok2 := v.(*ssa.UnOp)
	if !ok1 || !ok2 || a.Op != token.MUL || b.Op != token.MUL || a.Block() != cmp.Block() || b.Block() != next {
		return false
	}
	fa, ok1 := a.X.(*ssa.FieldAddr)
	fb, ok2 := b.X.(*ssa.FieldAddr)
	if !ok1 || !ok2 || fa.X != fb.X || fa.Field != fb.Field {
		return false
	}
	quiet := func(ins []ssa.Instruction) bool {
		for _, in := range ins {
			switch in.(type) {
			case *ssa.Store, ssa.CallInstruction, *ssa.Send, *ssa.Select, *ssa.MapUpdate:
				return false
			}
		}
		return true
	}
	index := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return 0
	}
	return quiet(a.Block().Instrs[index(a)+1:]) && quiet(next.Instrs[:index(b)])
}

// resultNonNil: the first result is not nil if there is no error.
func (iv *invariants) resultNonNil(c *ssa.Call) bool {
	fn := c.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !iv.p.inModule(fn) {
		if fn == nil || c.Call.Signature().Results().Len() < 2 {
			return false
		}
		// the convention of the libraries: a result or an error
		_, isP := c.Call.Signature().Results().At(0).Type().Underlying().(*types.Pointer)
		return isP
	}
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) < 2 {
			return false
		}
		if e, ok := r.Results[len(r.Results)-1].(*ssa.Const); ok && e.IsNil() {
			if !iv.returnNonNil(r) {
				return false
			}
			continue
		}
		// returned with an error that may be nil
		if k, ok := r.Results[0].(*ssa.Const); ok && k.IsNil() && isErrorPath(r) {
			continue
		}
		if !iv.returnNonNil(r) {
			return false
		}
	}
	return true
}

// returnNonNil: the first result is not nil, or was compared with nil.
func (iv *invariants) returnNonNil(r *ssa.Return) bool {
	if iv.nonNil(r.Results[0]) {
		return true
	}
	b := r.Block()
	return len(b.Preds) == 1 && checkedNonNil(r.Results[0], b.Preds[0], b)
}

// isErrorPath: the error that is returned is new, or was compared with nil.
func isErrorPath(r *ssa.Return) bool {
	e := r.Results[len(r.Results)-1]
	switch e.(type) {
	case *ssa.MakeInterface, *ssa.Call:
		return true
	}
	b := r.Block()
	for _, p := range b.Preds {
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.X != e && c.Y != e {
			return false
		}
	}
	return len(b.Preds) > 0
}

// cellOf is the local variable that an address stands for: its own, or the
// one that a closure captures.
func (iv *invariants) cellOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			b := iv.bindings(x)
			if len(b) != 1 {
				return nil
			}
			v = b[0]
		default:
			return nil
		}
	}
}

// cellNonNil: all that is stored to a local variable is not nil, and something
// is stored where it is made.
func (iv *invariants) cellNonNil(a *ssa.Alloc) bool {
	var stores, uses []ssa.Instruction
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr != v || !iv.nonNil(s.Val) {
					return false
				}
				if v == a {
					stores = append(stores, s)
				}
			case *ssa.MakeClosure:
				if v == a {
					uses = append(uses, s)
				}
				for i, b := range s.Bindings {
					if b == v && !look(s.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			case *ssa.UnOp:
				if v == a {
					uses = append(uses, s)
				}
			case *ssa.DebugRef:
			default:
				return false // its address goes elsewhere
			}
		}
		return true
	}
	if !look(a) {
		return false
	}
	// something is stored before it is used
	for _, u := range uses {
		ok := false
		for _, s := range stores {
			ok = ok || comesBefore(s, u)
		}
		if !ok {
			return false
		}
	}
	return len(stores) > 0
}

// comesBefore: no way leads to b but through a.
func comesBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// callersNonNil: all calls in the module of an unexported function pass a
// value that is not nil.
func (iv *invariants) callersNonNil(p *ssa.Parameter) bool {
	fn := p.Parent()
	recv := fn.Signature.Recv() != nil && p == fn.Params[0]
	if fn.Object() == nil || fn.Object().Exported() && !recv {
		return false
	}
	i := -1
	for j, q := range fn.Params {
		if q == p {
			i = j
		}
	}
	n := 0
	for _, g := range iv.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					n++
					if !iv.nonNil(c.Common().Args[i]) {
						return false
					}
				}
			}
		}
	}
	if recv && n == 0 {
		return fn.Object().Exported()
	}
	return n > 0
}

// boundNonNil: what a closure captures.
func (iv *invariants) boundNonNil(v *ssa.FreeVar) bool {
	bs := iv.bindings(v)
	for _, b := range bs {
		if !iv.nonNil(b) {
			return false
		}
	}
	return len(bs) > 0
}

// bindings are the values that a closure is made with for a free variable.
func (iv *invariants) bindings(v *ssa.FreeVar) []ssa.Value {
	fn := v.Parent()
	i := -1
	for j, q := range fn.FreeVars {
		if q == v {
			i = j
		}
	}
	var out []ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				out = append(out, m.Bindings[i])
			}
		}
	}
	return out
}

// elemsNonNil: no element of the slice is nil.
func (iv *invariants) elemsNonNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	case *ssa.Alloc:
		at, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return false
		}
		some := int64(0)
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
						if !iv.nonNil(s.Val) {
							return false
						}
						some++
					}
				}
			}
		}
		return some >= at.Len()
	case *ssa.Slice:
		return iv.elemsNonNil(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !iv.elemsNonNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		return iv.elemsNonNil(x.Call.Args[0], seen) && iv.elemsNonNil(x.Call.Args[1], seen)
	case *ssa.UnOp:
		if a := iv.cellOf(x.X); a != nil {
			return iv.cellElemsNonNil(a, a, seen)
		}
		f, ok := fieldOf(x.X)
		if !ok || !f.hidden() || iv.badElems[f] {
			return false
		}
		if iv.elemSeen[f] {
			return true
		}
		iv.elemSeen[f] = true
		for _, s := range iv.stores[f] {
			if !iv.elemsNonNil(s, seen) {
				iv.badElems[f] = true
				return false
			}
		}
		// stores to elements
		for _, s := range iv.elems[f] {
			if !iv.nonNil(s) {
				iv.badElems[f] = true
				return false
			}
		}
		return true
	}
	return false
}

// cellElemsNonNil: no element of a slice in a local variable is nil.
func (iv *invariants) cellElemsNonNil(a *ssa.Alloc, v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, r := range *v.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr != v || !iv.elemsNonNil(s.Val, seen) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range s.Bindings {
				if b == v && !iv.cellElemsNonNil(a, s.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		case *ssa.UnOp:
			for _, q := range *s.Referrers() {
				ia, ok := q.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, w := range *ia.Referrers() {
					if st, ok := w.(*ssa.Store); ok && (st.Addr != ssa.Value(ia) || !iv.nonNil(st.Val)) {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// pooled gives what a value that comes from a pool in a field may be.
func (iv *invariants) pooled(v ssa.Value) []ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().RelString(nil) != "(*sync.Pool).Get" {
		return nil
	}
	f, ok := fieldOf(c.Call.Args[0])
	if !ok || !f.hidden() {
		return nil
	}
	return iv.poolValues(f)
}

func (iv *invariants) poolValues(f fieldID) []ssa.Value {
	out := append([]ssa.Value{}, iv.puts[f]...)
	news := iv.poolNew(f)
	if len(news) == 0 {
		return nil
	}
	for _, fn := range news {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r.Results[0])
			}
		}
	}
	return out
}

// poolNew gives the functions that make the values of a pool.
func (iv *invariants) poolNew(f fieldID) []*ssa.Function {
	var out []*ssa.Function
	add := func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		}
	}
	newOf := func(addr ssa.Value) {
		for _, r := range *addr.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() == "New" {
					for _, q := range *fa.Referrers() {
						if s, ok := q.(*ssa.Store); ok {
							add(s.Val)
						}
					}
				}
			}
		}
	}
	for _, fn := range iv.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if g, ok := fieldOf(fa); ok && g == f {
						newOf(fa)
					}
				}
			}
		}
	}
	for _, v := range iv.stores[f] {
		if u, ok := v.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok {
				newOf(a)
			}
		}
	}
	return out
}

// operand is the value of which an obligation says that it is not nil, or has
// a type.
func operand(kind string, in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return x.X
	case *ssa.IndexAddr:
		return x.X
	case *ssa.UnOp:
		return x.X
	case *ssa.Store:
		return x.Addr
	case *ssa.MapUpdate:
		return x.Map
	case *ssa.TypeAssert:
		return x.X
	case ssa.CallInstruction:
		c := x.Common()
		if c.IsInvoke() {
			return c.Value
		}
		if kind == "nilfunc" {
			return c.Value
		}
		if len(c.Args) > 0 {
			return c.Args[0]
		}
	}
	return nil
}

// byInvariant says if an obligation follows from the field invariants.
func (iv *invariants) byInvariant(kind string, in ssa.Instruction) bool {
	v := operand(kind, in)
	if v == nil {
		return false
	}
	switch kind {
	case "nil", "niliface", "nilmap", "nilfunc":
		return iv.nonNil(v)
	case "assert":
		vs := iv.pooled(v)
		if vs == nil {
			return false
		}
		for _, w := range vs {
			m, ok := w.(*ssa.MakeInterface)
			if !ok || !types.Identical(m.X.Type(), in.(*ssa.TypeAssert).AssertedType) {
				return false
			}
		}
		return true
	}
	return false
}

// implementor is the type of the module that implements an interface of the
// module, if there is only one.
func (p *Program) implementor(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || p.Types[n.Obj().Pkg().Path()] == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var found types.Type
	for _, pkg := range p.Types {
		for _, name := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, c := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(c, it) {
					if found != nil {
						return nil
					}
					found = c
					break
				}
			}
		}
	}
	return found
}

// cutOff: the element that is set becomes no part of the slice right after.
func cutOff(s *ssa.Store, f fieldID) bool {
	after := false
	for _, in := range s.Block().Instrs {
		if in == ssa.Instruction(s) {
			after = true
		}
		t, ok := in.(*ssa.Store)
		if !after || !ok {
			continue
		}
		if g, ok := fieldOf(t.Addr); ok && g == f {
			if sl, ok := t.Val.(*ssa.Slice); ok && sl.High != nil {
				if h, ok := loadedField(sl.X); ok && h == f {
					return true
				}
			}
		}
	}
	return false
}
