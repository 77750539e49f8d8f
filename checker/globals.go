package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalObj is the location of a package variable. A variable of the module
// that nothing writes to after the initialisation of its package has the value
// that the initialisation gives it.
func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o, ok := globObjs[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := "glob " + g.String()
	o := &Obj{name: name, typ: t, sym: true, glob: g}
	globObjs[g] = o
	if _, inMod := e.prog.Pkgs[g.Pkg.Pkg.Path()]; inMod {
		if !e.gdone {
			e.initGlobals()
		}
		if v, ok := e.globals[g]; ok {
			o.init = v
		}
	} else {
		v := symValue(g.String(), t)
		switch x := v.(type) {
		case *IfaceV:
			x.nn = true
		case *PtrV:
			x.nilName = ""
		}
		o.init = v
	}
	return o
}

var globObjs = map[*ssa.Global]*Obj{}

// initGlobals runs the initialisation of the packages of the module.
func (e *Engine) initGlobals() {
	e.gdone = true
	written := e.writtenGlobals()
	for path, pkg := range e.prog.Pkgs {
		init := pkg.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		_ = path
		st := newState()
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := e.globalObjRaw(g)
				st.mem[o] = zeroValue(o.typ)
			}
		}
		sub := newEngine(e.prog)
		sub.quiet = 1
		sub.gdone = true
		sub.globals = e.globals
		sub.unroll = 2000
		sub.pureInit = true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(undecided); !ok {
						panic(r)
					}
				}
			}()
			rets := sub.callFn(st, init, nil, nil, nil)
			if len(rets) != 1 {
				return
			}
			fin := rets[0].st
			for o, v := range fin.mem {
				if o.glob == nil {
					o.init = v
				}
			}
			for _, m := range pkg.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				o := e.globalObjRaw(g)
				v := fin.mem[o]
				if v == nil {
					v = zeroValue(o.typ)
				}
				e.initVals[g] = v
				if written[g] {
					continue
				}
				e.globals[g] = v
				o.init = v
			}
		}()
	}
}

func (e *Engine) globalObjRaw(g *ssa.Global) *Obj {
	if o, ok := globObjs[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := &Obj{name: "glob " + g.String(), typ: t, sym: true, glob: g}
	globObjs[g] = o
	return o
}

// writtenGlobals finds the variables that may be written to outside of the
// initialisation: stored to, or their address or (for maps and slices) their
// content goes somewhere it may be written.
func (e *Engine) writtenGlobals() map[*ssa.Global]bool {
	w := map[*ssa.Global]bool{}
	for _, f := range e.prog.Funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		initFn := f.Parent() == nil && len(f.Name()) > 4 && f.Name()[:5] == "init#"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || initFn {
						continue
					}
					if !readOnly(in, g, map[ssa.Value]bool{}, 0) {
						w[g] = true
					}
				}
			}
		}
	}
	return w
}

// readOnly says if the use of v by the instruction only reads.
func readOnly(in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	if depth > 12 {
		return false
	}
	uses := func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if x.Referrers() == nil {
			return true
		}
		for _, r := range *x.Referrers() {
			if !readOnly(r, x, seen, depth+1) {
				return false
			}
		}
		return true
	}
	shared := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			return true
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if shared(x.Type()) {
			return uses(x)
		}
		return true
	case *ssa.FieldAddr:
		return uses(x)
	case *ssa.IndexAddr:
		return uses(x)
	case *ssa.Slice:
		return uses(x)
	case *ssa.Phi:
		return uses(x)
	case *ssa.ChangeType:
		return uses(x)
	case *ssa.Lookup, *ssa.Index, *ssa.Field, *ssa.Range, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Extract:
		return true
	case *ssa.Store:
		return x.Addr != v && !shared(v.Type())
	case *ssa.MapUpdate:
		return x.Map != v && !shared(v.Type())
	case *ssa.Return:
		// the caller gets a reference
		return !shared(v.Type())
	case *ssa.MakeInterface:
		return uses(x)
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "append", "copy":
				return c.Args[0] != v
			}
			return false
		}
		if f := c.StaticCallee(); f != nil {
			if f.Pkg != nil {
				switch f.Pkg.Pkg.Path() {
				case "fmt", "strings", "sort", "encoding/binary", "log", "github.com/sirupsen/logrus":
					return f.Pkg.Pkg.Path() != "sort"
				}
			}
			if len(f.Blocks) > 0 {
				for i, a := range c.Args {
					if a == v && i < len(f.Params) && !uses(f.Params[i]) {
						return false
					}
				}
				return true
			}
			if f.Signature.Recv() != nil {
				// a method of a foreign type: regexps, loggers
				return true
			}
		}
		if c.IsInvoke() && c.Value == v {
			return true
		}
		return !shared(v.Type())
	}
	return false
}
