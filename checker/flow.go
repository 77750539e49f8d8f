package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive points-to analysis of the whole module: where the objects
// that a value refers to come from.

type originKind byte

const (
	oFresh   originKind = 'f' // made at a site
	oShared  originKind = 's' // an object of a type that goroutines share
	oContent originKind = 'c' // what a field of such an object, or a package variable, refers to
	oFunc    originKind = 'F'
	oCaller  originKind = 'e' // given by the caller of the module, or unknown
)

type origin struct {
	kind  originKind
	site  ssa.Value // fresh: the site; content: the site of the owner, if it is fresh
	field string    // content: Type.field or package.variable; shared: Type
	fn    *ssa.Function
}

type origins map[origin]bool

type flow struct {
	p       *Program
	funcs   []*ssa.Function
	known   map[*ssa.Function]bool
	shared  map[*types.Named]bool
	of      map[ssa.Value]origins
	cell    map[ssa.Value]origins // what is stored in the objects of a site
	fields  map[string]origins    // what is stored in fields of shared types and package variables
	results map[*ssa.Function][]origins
	entry   map[*ssa.Function]bool
	closure map[*ssa.Function][]*ssa.MakeClosure
	gos     []*ssa.Go
	async   map[*ssa.Function]bool // started by a go statement
	callers map[*ssa.Function][]ssa.CallInstruction
	changed bool
	foreign map[string]bool // package variables of other modules
}

// concurrent: the packages whose types are used by several goroutines.
func concurrentPkg(p *types.Package) bool {
	if p == nil {
		return false
	}
	switch strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/") {
	case "", "tsm", "utsm", "datalink":
		return true
	}
	return false
}

func isSyncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func newFlow(p *Program) *flow {
	f := &flow{p: p, known: map[*ssa.Function]bool{}, shared: map[*types.Named]bool{}, of: map[ssa.Value]origins{},
		cell: map[ssa.Value]origins{}, fields: map[string]origins{}, results: map[*ssa.Function][]origins{},
		entry: map[*ssa.Function]bool{}, closure: map[*ssa.Function][]*ssa.MakeClosure{}, async: map[*ssa.Function]bool{}}
	f.sharedTypes()
	for _, fn := range p.Funcs {
		f.add(fn)
	}
	for {
		f.changed = false
		f.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for i := 0; i < len(f.funcs); i++ {
			f.step(f.funcs[i])
		}
		if !f.changed {
			break
		}
	}
	for _, g := range f.gos {
		for _, t := range f.targets(g.Common()) {
			f.async[t] = true
		}
	}
	return f
}

// sharedTypes are the structs with methods or with channels or locks of these
// packages, and those that they refer to.
func (f *flow) sharedTypes() {
	var visit func(t types.Type, deep int)
	mark := func(n *types.Named) {
		if f.shared[n] {
			return
		}
		f.shared[n] = true
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			visit(st.Field(i).Type(), 0)
		}
	}
	visit = func(t types.Type, deep int) {
		if deep > 4 {
			return
		}
		switch t := types.Unalias(t).(type) {
		case *types.Pointer:
			visit(t.Elem(), deep+1)
		case *types.Slice:
			visit(t.Elem(), deep+1)
		case *types.Map:
			visit(t.Elem(), deep+1)
		case *types.Chan:
			visit(t.Elem(), deep+1)
		case *types.Named:
			if _, ok := t.Underlying().(*types.Struct); ok && concurrentPkg(t.Obj().Pkg()) {
				mark(t)
			}
		}
	}
	for path, pkg := range f.p.Pkgs {
		if path == thmPath || !concurrentPkg(pkg.Pkg) {
			continue
		}
		for _, m := range pkg.Members {
			ty, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := ty.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			locks := false
			for i := 0; i < st.NumFields(); i++ {
				_, isChan := st.Field(i).Type().Underlying().(*types.Chan)
				locks = locks || isChan || isSyncType(st.Field(i).Type())
			}
			if locks || n.NumMethods() > 0 {
				mark(n)
			}
		}
	}
}

func (f *flow) sharedPtr(t types.Type) *types.Named {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(p.Elem()).(*types.Named)
	if n != nil && f.shared[n] {
		return n
	}
	return nil
}

func (f *flow) add(fn *ssa.Function) {
	if fn == nil || f.known[fn] || fn.Blocks == nil || fn.Pkg != nil && fn.Pkg.Pkg.Path() == thmPath {
		return
	}
	if fn.Pkg != nil && f.p.Pkgs[fn.Pkg.Pkg.Path()] == nil {
		return
	}
	f.known[fn] = true
	f.funcs = append(f.funcs, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeClosure:
				t := x.Fn.(*ssa.Function)
				f.closure[t] = append(f.closure[t], x)
				f.add(t)
			case *ssa.Go:
				f.gos = append(f.gos, x)
			}
		}
	}
	if fn.Parent() == nil && fn.Synthetic == "" && token.IsExported(fn.Name()) {
		f.entry[fn] = true
		for _, p := range fn.Params {
			f.unknown(p)
		}
	}
}

// unknown: a value that comes from outside of the module.
func (f *flow) unknown(v ssa.Value) {
	if n := f.sharedPtr(v.Type()); n != nil {
		f.put(v, origin{kind: oShared, field: sharedName(n)})
		return
	}
	f.put(v, origin{kind: oCaller})
}

func sharedName(n *types.Named) string {
	return strings.TrimPrefix(n.Obj().Pkg().Name()+"."+n.Obj().Name(), "")
}

func (f *flow) put(v ssa.Value, o origin) {
	m := f.of[v]
	if m == nil {
		m = origins{}
		f.of[v] = m
	}
	if !m[o] {
		m[o] = true
		f.changed = true
	}
}

func (f *flow) putAll(v ssa.Value, os origins) {
	for o := range os {
		f.put(v, o)
	}
}

func (f *flow) into(m map[ssa.Value]origins, k ssa.Value, os origins) {
	if m[k] == nil {
		m[k] = origins{}
	}
	for o := range os {
		if !m[k][o] {
			m[k][o] = true
			f.changed = true
		}
	}
}

func holds(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	}
	return true
}

// get: the origins of an operand.
func (f *flow) get(v ssa.Value) origins {
	switch x := v.(type) {
	case *ssa.Function:
		if f.of[v] == nil {
			f.add(x)
			f.put(v, origin{kind: oFunc, fn: x})
		}
	case *ssa.Global:
		if f.of[v] == nil {
			f.put(v, origin{kind: oContent, field: globalName(x)})
		}
	}
	return f.of[v]
}

func globalName(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

// place: the field of a shared type, or the package variable, that an address
// is a part of.
func (f *flow) place(a ssa.Value) (field string, typ types.Type, base ssa.Value, ok bool) {
	path := ""
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			path = "." + st.Field(x.Field).Name() + path
			if typ == nil {
				typ = st.Field(x.Field).Type()
			}
			if n := f.sharedPtr(x.X.Type()); n != nil {
				return sharedName(n) + path, typ, x.X, true
			}
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return "", nil, nil, false
			}
			a = x.X
			path = ""
			typ = nil
		case *ssa.Global:
			if typ == nil {
				typ = x.Type().Underlying().(*types.Pointer).Elem()
			}
			if x.Pkg != nil && !strings.HasPrefix(x.Pkg.Pkg.Path(), modulePath) {
				if f.foreign == nil {
					f.foreign = map[string]bool{}
				}
				f.foreign[globalName(x)] = true
			}
			return globalName(x), typ, x, true
		default:
			return "", nil, nil, false
		}
	}
}

func (f *flow) load(a ssa.Value, dst ssa.Value) {
	if !holds(dst.Type()) {
		return
	}
	if field, _, base, ok := f.place(a); ok {
		f.contentOf(field, f.get(base), dst)
		return
	}
	f.elements(f.get(a), dst)
}

func (f *flow) contentOf(field string, base origins, dst ssa.Value) {
	// functions are known by what is stored
	for o := range f.fields[field] {
		if o.kind == oFunc {
			f.put(dst, o)
		}
	}
	if n := f.sharedPtr(dst.Type()); n != nil {
		f.put(dst, origin{kind: oShared, field: sharedName(n)})
		return
	}
	for o := range base {
		c := origin{kind: oContent, field: field}
		if o.kind == oFresh {
			c.site = o.site
		}
		f.put(dst, c)
	}
}

// elements: what is loaded from objects of these origins.
func (f *flow) elements(os origins, dst ssa.Value) {
	if !holds(dst.Type()) {
		return
	}
	n := f.sharedPtr(dst.Type())
	for o := range os {
		switch o.kind {
		case oFresh:
			f.putAll(dst, f.cell[o.site])
		case oContent:
			if n != nil {
				f.put(dst, origin{kind: oShared, field: sharedName(n)})
			} else {
				f.put(dst, o)
			}
			for q := range f.fields[o.field+"[]"] {
				if q.kind == oFunc {
					f.put(dst, q)
				}
			}
		case oCaller, oShared:
			f.unknown(dst)
		}
	}
}

func (f *flow) store(a ssa.Value, os origins) {
	if field, _, base, ok := f.place(a); ok {
		if f.fields[field] == nil {
			f.fields[field] = origins{}
		}
		for o := range os {
			if !f.fields[field][o] {
				f.fields[field][o] = true
				f.changed = true
			}
		}
		for o := range f.get(base) {
			if o.kind == oFresh {
				f.into(f.cell, o.site, os)
			}
		}
		return
	}
	f.storeIn(f.get(a), os)
}

func (f *flow) storeIn(at, os origins) {
	for o := range at {
		switch o.kind {
		case oFresh:
			f.into(f.cell, o.site, os)
		case oContent:
			k := o.field + "[]"
			if f.fields[k] == nil {
				f.fields[k] = origins{}
			}
			for q := range os {
				if !f.fields[k][q] {
					f.fields[k][q] = true
					f.changed = true
				}
			}
		}
	}
}

// targets are the functions of the module that a call can reach.
func (f *flow) targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		var out []*ssa.Function
		iface, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for path, pkg := range f.p.Pkgs {
			if path == thmPath {
				continue
			}
			for _, m := range pkg.Members {
				ty, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				if _, ok := ty.Type().Underlying().(*types.Interface); ok {
					continue
				}
				for _, t := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
					if types.Implements(t, iface) {
						if fn := f.p.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); fn != nil && fn.Synthetic == "" {
							out = append(out, fn)
						}
					}
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
		return out
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, ok := cc.Value.(*ssa.MakeClosure); !ok || fn.Blocks != nil {
			f.add(fn)
			if f.known[fn] {
				return []*ssa.Function{fn}
			}
		}
		return nil
	}
	var out []*ssa.Function
	for o := range f.get(cc.Value) {
		if o.kind == oFunc {
			f.add(o.fn)
			if f.known[o.fn] {
				out = append(out, o.fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (f *flow) step(fn *ssa.Function) {
	for _, mc := range f.closure[fn] {
		for i, b := range mc.Bindings {
			if i < len(fn.FreeVars) {
				f.putAll(fn.FreeVars[i], f.get(b))
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.instr(fn, in)
		}
	}
}

func (f *flow) fresh(v ssa.Value) { f.put(v, origin{kind: oFresh, site: v}) }

func (f *flow) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		f.fresh(x)
	case *ssa.MakeSlice:
		f.fresh(x)
	case *ssa.MakeMap:
		f.fresh(x)
	case *ssa.MakeChan:
		f.fresh(x)
	case *ssa.MakeClosure:
		f.put(x, origin{kind: oFunc, fn: x.Fn.(*ssa.Function)})
		// what it holds can be reached from it
		f.fresh(x)
		for _, b := range x.Bindings {
			f.into(f.cell, x, f.get(b))
		}
	case *ssa.FieldAddr:
		f.putAll(x, f.get(x.X))
	case *ssa.IndexAddr:
		f.putAll(x, f.get(x.X))
	case *ssa.Field:
		if holds(x.Type()) {
			f.putAll(x, f.get(x.X))
		}
	case *ssa.Index:
		if holds(x.Type()) {
			f.putAll(x, f.get(x.X))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			f.load(x.X, x)
		case token.ARROW:
			f.elements(f.get(x.X), x)
			f.unknown(x)
		}
	case *ssa.Lookup:
		f.elements(f.get(x.X), x)
		if x.CommaOk {
			f.lookupShared(x, x.X.Type())
		}
	case *ssa.Range:
		f.putAll(x, f.get(x.X))
	case *ssa.Next:
		f.elements(f.get(x.Iter), x)
	case *ssa.Extract:
		if !holds(x.Type()) {
			return
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && f.isModule(c) {
			for _, t := range f.targets(c.Common()) {
				if x.Index < len(f.results[t]) {
					f.putAll(x, f.results[t][x.Index])
				}
			}
			return
		}
		if _, ok := x.Tuple.(*ssa.Select); ok {
			f.unknown(x)
			return
		}
		if n := f.sharedPtr(x.Type()); n != nil {
			for o := range f.get(x.Tuple) {
				if o.kind != oContent {
					f.put(x, o)
				} else {
					f.put(x, origin{kind: oShared, field: sharedName(n)})
				}
			}
			return
		}
		f.putAll(x, f.get(x.Tuple))
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.putAll(x, f.get(e))
		}
	case *ssa.ChangeType:
		f.putAll(x, f.get(x.X))
	case *ssa.Convert:
		f.putAll(x, f.get(x.X))
	case *ssa.ChangeInterface:
		f.putAll(x, f.get(x.X))
	case *ssa.MakeInterface:
		if holds(x.X.Type()) {
			f.putAll(x, f.get(x.X))
		}
	case *ssa.SliceToArrayPointer:
		f.putAll(x, f.get(x.X))
	case *ssa.TypeAssert:
		if n := f.sharedPtr(x.AssertedType); n != nil {
			for o := range f.get(x.X) {
				if o.kind == oContent || o.kind == oCaller {
					f.put(x, origin{kind: oShared, field: sharedName(n)})
				} else {
					f.put(x, o)
				}
			}
			return
		}
		f.putAll(x, f.get(x.X))
	case *ssa.Slice:
		f.putAll(x, f.get(x.X))
	case *ssa.Store:
		if holds(x.Val.Type()) {
			f.store(x.Addr, f.get(x.Val))
		}
	case *ssa.MapUpdate:
		f.storeIn(f.get(x.Map), f.get(x.Key))
		f.storeIn(f.get(x.Map), f.get(x.Value))
	case *ssa.Send:
		f.storeIn(f.get(x.Chan), f.get(x.X))
	case *ssa.Return:
		if f.results[fn] == nil && len(x.Results) > 0 {
			f.results[fn] = make([]origins, len(x.Results))
			for i := range x.Results {
				f.results[fn][i] = origins{}
			}
		}
		for i, r := range x.Results {
			for o := range f.get(r) {
				if !f.results[fn][i][o] {
					f.results[fn][i][o] = true
					f.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		f.call(x)
	}
}

func (f *flow) lookupShared(x *ssa.Lookup, m types.Type) {
	mt, ok := m.Underlying().(*types.Map)
	if !ok {
		return
	}
	if n := f.sharedPtr(mt.Elem()); n != nil {
		for o := range f.get(x.X) {
			if o.kind == oContent || o.kind == oCaller {
				f.put(x, origin{kind: oShared, field: sharedName(n)})
			}
		}
	}
}

func (f *flow) isModule(c ssa.CallInstruction) bool {
	return len(f.targets(c.Common())) > 0
}

func (f *flow) call(c ssa.CallInstruction) {
	cc := c.Common()
	v, _ := c.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			f.putAll(v, f.get(cc.Args[0]))
			f.fresh(v)
			if len(cc.Args) > 1 {
				var elems origins = origins{}
				for o := range f.get(cc.Args[1]) {
					switch o.kind {
					case oFresh:
						for q := range f.cell[o.site] {
							elems[q] = true
						}
					case oContent:
						elems[o] = true
					}
				}
				for o := range f.get(cc.Args[0]) {
					if o.kind == oFresh {
						for q := range f.cell[o.site] {
							elems[q] = true
						}
					}
				}
				f.storeIn(f.get(v), elems)
			}
		case "copy":
			var elems = origins{}
			for o := range f.get(cc.Args[1]) {
				if o.kind == oFresh {
					for q := range f.cell[o.site] {
						elems[q] = true
					}
				}
			}
			f.storeIn(f.get(cc.Args[0]), elems)
		}
		return
	}
	ts := f.targets(cc)
	for _, t := range ts {
		f.callers[t] = append(f.callers[t], c)
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if i < len(t.Params) && holds(t.Params[i].Type()) {
				for o := range f.get(a) {
					if n := f.sharedPtr(t.Params[i].Type()); n != nil && cc.IsInvoke() && i == 0 && o.kind != oFresh {
						f.put(t.Params[i], origin{kind: oShared, field: sharedName(n)})
						continue
					}
					f.put(t.Params[i], o)
				}
			}
		}
		if v != nil && len(f.results[t]) == 1 {
			f.putAll(v, f.results[t][0])
		}
	}
	if v == nil || len(ts) > 0 || !holds(v.Type()) {
		return
	}
	// outside of the module: something new, or what it is given
	if fn := cc.StaticCallee(); fn != nil && fn.String() == "(*sync.Pool).Get" {
		f.fresh(v)
		return
	}
	f.unknown(v)
	f.fresh(v)
	if fn := cc.StaticCallee(); fn != nil && fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "slices", "maps", "bytes", "sort":
			for _, a := range cc.Args {
				f.putAll(v, f.get(a))
			}
		}
	} else if fn != nil && fn.Origin() != nil {
		for _, a := range cc.Args {
			f.putAll(v, f.get(a))
		}
	}
}

// reach: the sites that can be reached from values of these origins.
func (f *flow) reach(os origins) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var visit func(os origins)
	visit = func(os origins) {
		for o := range os {
			if o.kind == oFresh && !out[o.site] {
				out[o.site] = true
				visit(f.cell[o.site])
			}
		}
	}
	visit(os)
	return out
}
