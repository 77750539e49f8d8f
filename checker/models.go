package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call is a call that is not analysed by looking into the function.
type call struct {
	e    *Engine
	fr   *frame
	bs   *bstate
	st   *State
	in   ssa.CallInstruction
	fn   *ssa.Function
	name string
	args []Value
	sig  *types.Signature
}

type outcome struct {
	st *State
	v  Value
}

type model func(c *call) []outcome

func (c *call) ret(v Value) []outcome { return []outcome{{c.st, v}} }

// results makes the result value(s) of a call by name.
func (c *call) results(name string) Value {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return symValue(name, r.At(0).Type())
	}
	return symValue(name, r)
}

func (c *call) freshResults() Value { return c.results(fresh(c.name)) }

// pure: the result depends on nothing but the arguments.
func (c *call) pure() Value {
	var s []string
	for _, a := range c.args {
		s = append(s, c.argKey(a))
	}
	return c.results(c.name + "(" + strings.Join(s, ",") + ")")
}

func (c *call) argKey(a Value) string {
	switch x := a.(type) {
	case *SliceV:
		if x.isNil {
			return "[]"
		}
		return "[" + chunksKey(c.st.seg(x)) + "]"
	case *IfaceV:
		if x.t != nil {
			return c.argKey(x.v)
		}
	case *Lin:
		return c.st.f.reduce(x).key
	case nil:
		return "-"
	}
	return a.vkey()
}

func (c *call) event(kind string) {
	c.st.event(&Event{kind: kind, name: c.name, args: c.args, site: c.in.(ssa.Instruction)})
}

func newError(origin string, args []Value, site ssa.Instruction) *IfaceV {
	return &IfaceV{name: fresh("error:" + origin), origin: origin, args: args, site: site, nn: true}
}

func (fr *frame) doCall(bs *bstate, in ssa.CallInstruction, f Value, args []Value) []outcome {
	e := fr.e
	st := bs.st
	instr := in.(ssa.Instruction)
	c := &call{e: e, fr: fr, bs: bs, st: st, in: in, args: args, sig: in.Common().Signature()}
	fv, _ := f.(*FuncV)
	if fv == nil {
		c.name = "?"
		return c.unknown()
	}
	switch {
	case strings.HasPrefix(fv.name, "builtin ") && fv.fn == nil:
		return c.builtin(fv.name[8:])
	case fv.name == "invoke" && fv.fn == nil:
		return c.invoke()
	case fv.isNil:
		e.oblige(st, "nilfunc", instr, false, "call of a nil function")
		return nil
	case fv.fn == nil:
		nc := st.nilCond(fv)
		d := st.decide(nc)
		e.oblige(st, "nilfunc", instr, d == 0, "call of a function that may be nil")
		if d == 1 || d < 0 && !st.assume(nc, false) {
			return nil
		}
		c.name = fv.name
		if strings.HasPrefix(fv.name, "cancel ") {
			if st.flags == nil {
				st.flags = map[string]Value{}
			}
			st.flags["cancelled "+fv.name[7:]] = boolC(true)
		}
		st.event(&Event{kind: "callfn", name: fv.name, args: args, site: instr})
		return c.unknown()
	}
	e.calls[instr] = true
	return c.callFunc(fv.fn, fv.binds, args)
}

func (c *call) callFunc(fn *ssa.Function, binds []Value, args []Value) []outcome {
	e := c.e
	c.fn = fn
	c.args = args
	c.name = fn.String()
	if o := fn.Origin(); o != nil {
		c.name = o.String()
	}
	instr := c.in.(ssa.Instruction)
	short := strings.ReplaceAll(c.name, modulePath+"/", "")
	short = strings.ReplaceAll(short, modulePath, "bacnet")
	if m, ok := e.override[short]; ok {
		c.name = short
		return m(c)
	}
	if e.opaque[short] {
		c.name = short
		c.event("call")
		r := c.freshResults()
		c.st.trace[len(c.st.trace)-1].res = r
		return c.ret(r)
	}
	if m, ok := models[c.name]; ok {
		return m(c)
	}
	if len(fn.Blocks) > 0 && e.inModule(fn) {
		if e.contracts != nil && fn.Parent() == nil && len(binds) == 0 {
			if ct := e.contractFor(fn); ct.ok {
				return ct.apply(c)
			}
		}
		var outs []outcome
		for _, r := range e.callFn(c.st, fn, args, binds, instr) {
			outs = append(outs, outcome{r.st, r.v})
		}
		return outs
	}
	if len(fn.Blocks) > 0 && (fn.Synthetic != "" || fn.Pkg == nil) {
		// wrappers of methods
		var outs []outcome
		for _, r := range e.callFn(c.st, fn, args, binds, instr) {
			outs = append(outs, outcome{r.st, r.v})
		}
		return outs
	}
	for _, p := range modelPrefixes {
		if strings.HasPrefix(c.name, p.prefix) {
			return p.m(c)
		}
	}
	return c.unknown()
}

func (e *Engine) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			_, ok := e.prog.Pkgs[f.Pkg.Pkg.Path()]
			return ok
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			_, ok := e.prog.Pkgs[o.Pkg.Pkg.Path()]
			return ok
		}
	}
	return false
}

// unknown: the function may return anything and change what it gets pointers to.
func (c *call) unknown() []outcome {
	c.e.notes["unknown function "+c.name]++
	c.event("ext")
	for _, a := range c.args {
		c.havocArg(a, 0)
	}
	r := c.freshResults()
	c.st.trace[len(c.st.trace)-1].res = r
	return c.ret(r)
}

func (c *call) havocArg(a Value, depth int) {
	if depth > 3 {
		return
	}
	switch x := a.(type) {
	case *PtrV:
		if x.isNil || x.obj == nil {
			return
		}
		t := pathTypeObj(x)
		if t == nil {
			return
		}
		c.st.store(x, symValue(fresh("havoc"), t))
	case *SliceV:
		if x.isNil || x.ptr == nil {
			return
		}
		c.st.mem[x.ptr.obj] = c.st.havocValue(c.st.root(x.ptr.obj), x.ptr.obj, "havoc")
	case *IfaceV:
		if x.v != nil {
			c.havocArg(x.v, depth+1)
		}
	case *MapV:
		if !x.isNil {
			c.st.mem[x.obj] = &MapState{base: fresh("havoc")}
		}
	}
}

func pathTypeObj(p *PtrV) types.Type {
	t := p.obj.typ
	path := p.path
	if p.obj.elem {
		if len(path) == 0 {
			return nil
		}
		path = path[1:]
	}
	return pathType(t, path)
}

// --- methods of interfaces

func (c *call) invoke() []outcome {
	st := c.st
	cc := c.in.Common()
	instr := c.in.(ssa.Instruction)
	m := cc.Method
	recv, _ := c.args[0].(*IfaceV)
	if recv == nil {
		recv = &IfaceV{name: fresh("recv")}
	}
	nc := st.nilCond(recv)
	d := st.decide(nc)
	c.e.oblige(st, "niliface", instr, d == 0, "method "+m.Name()+" of an interface that may be nil: "+vk(recv))
	if d == 1 {
		return nil
	}
	if d < 0 && !st.assume(nc, false) {
		return nil
	}
	t, v := recv.t, recv.v
	iname := strings.ReplaceAll(strings.ReplaceAll(cc.Value.Type().String(), modulePath+"/", ""), modulePath, "bacnet")
	_, over := c.e.override["invoke "+iname+"."+m.Name()]
	if t == nil && recv.name != "" && !over {
		if it := c.e.prog.implementor(cc.Value.Type()); it != nil {
			t = it
			v = symValue(recv.name+".("+shortType(t)+")", t)
			if p, ok := v.(*PtrV); ok {
				st.assume(st.nilCond(p), false)
			}
		}
	}
	if t == nil {
		if df := st.f.dyn[recv.name]; df != nil && df.is != nil {
			t = df.is
			v = symValue(recv.name+".("+shortType(t)+")", t)
		}
	}
	if t != nil && !types.IsInterface(t) {
		fn := c.e.prog.SSA.LookupMethod(t, m.Pkg(), m.Name())
		if fn != nil {
			c.e.calls[instr] = true
			args := append([]Value{v}, c.args[1:]...)
			return c.callFunc(fn, nil, args)
		}
	}
	it := cc.Value.Type().String()
	it = strings.ReplaceAll(strings.ReplaceAll(it, modulePath+"/", ""), modulePath, "bacnet")
	c.name = "invoke " + it + "." + m.Name()
	c.args[0] = recv
	if m, ok := c.e.override[c.name]; ok {
		return m(c)
	}
	if m, ok := models[c.name]; ok {
		return m(c)
	}
	if strings.HasPrefix(c.name, "invoke error.Error") {
		return c.ret(c.pure())
	}
	c.event("invoke")
	r := c.freshResults()
	c.st.trace[len(c.st.trace)-1].res = r
	return c.ret(r)
}

// --- builtins

func (c *call) builtin(name string) []outcome {
	st := c.st
	instr := c.in.(ssa.Instruction)
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return c.ret(st.f.reduce(x.cap))
			}
			return c.ret(st.f.reduce(x.n))
		case *StrV:
			return c.ret(st.f.reduce(x.n))
		case *MapV:
			if x.isNil {
				return c.ret(linC(0))
			}
			ms := st.mapState(x.obj)
			if ms.base == "" {
				all := true
				n := 0
				for _, e := range ms.ents {
					if !constKey(e.k) {
						all = false
					}
					if e.present {
						n++
					}
				}
				if all {
					return c.ret(linC(int64(n)))
				}
			}
			return c.ret(lenAtom("len(" + ms.vkey() + ")"))
		case *ChanV:
			return c.ret(lenAtom(fresh("lenchan")))
		}
		return c.ret(lenAtom(fresh("len")))
	case "append":
		return c.appendTo()
	case "copy":
		return c.copyTo()
	case "delete":
		m, _ := c.args[0].(*MapV)
		if m != nil && !m.isNil {
			st.event(&Event{kind: "mapdelete", name: m.obj.name, args: []Value{m, c.args[1]}, site: instr})
			st.mapSet(m.obj, c.args[1], zeroValue(m.typ.Elem()), false)
		}
		return c.ret(TupleV{})
	case "close":
		ch, _ := c.args[0].(*ChanV)
		if ch == nil || ch.isNil {
			c.e.oblige(st, "closed", instr, ch != nil && !ch.isNil, "close of a nil channel")
			return c.ret(TupleV{})
		}
		cs, _ := st.root(ch.obj).(*ChanState)
		if cs != nil {
			c.e.oblige(st, "closed", instr, cs.closed != "yes", "channel is closed twice")
			n := *cs
			n.closed = "yes"
			st.mem[ch.obj] = &n
		}
		st.event(&Event{kind: "close", name: ch.obj.name, args: []Value{ch}, site: instr})
		return c.ret(TupleV{})
	case "print", "println":
		return c.ret(TupleV{})
	case "recover":
		return c.ret(&IfaceV{isNil: true})
	case "min", "max":
		if w, s, ok := intInfo(c.sig.Results().At(0).Type()); ok {
			_ = w
			_ = s
			outs := []outcome{{st, c.args[0]}}
			for _, a := range c.args[1:] {
				var next []outcome
				for _, o := range outs {
					x, y := o.v.(*Lin), a.(*Lin)
					b := boolCmp(x.sub(y), opLE)
					no := o.st.clone()
					if o.st.assume(b, true) {
						r := x
						if name == "max" {
							r = y
						}
						next = append(next, outcome{o.st, r})
					}
					if no.assume(b, false) {
						r := y
						if name == "max" {
							r = x
						}
						next = append(next, outcome{no, r})
					}
				}
				outs = next
			}
			return outs
		}
		return c.ret(c.pure())
	case "clear":
		switch x := c.args[0].(type) {
		case *MapV:
			if !x.isNil {
				st.mem[x.obj] = &MapState{}
			}
		case *SliceV:
			c.havocArg(x, 0)
		}
		return c.ret(TupleV{})
	case "ssa:wrapnilchk":
		p := c.args[0]
		nc := st.nilCond(p)
		d := st.decide(nc)
		c.e.oblige(st, "nil", instr, d == 0, "value method of a pointer that may be nil")
		if d == 1 || d < 0 && !st.assume(nc, false) {
			return nil
		}
		return c.ret(p)
	}
	panic(undecided{"builtin " + name})
}

func (c *call) appendTo() []outcome {
	st := c.st
	a, _ := c.args[0].(*SliceV)
	rt := c.in.Common().Args[0].Type()
	et := rt.Underlying().(*types.Slice).Elem()
	if a == nil {
		return c.ret(symValue(fresh("append"), rt))
	}
	var add []*Chunk
	if len(c.args) > 1 {
		switch b := c.args[1].(type) {
		case *SliceV:
			add = st.seg(b)
			if len(add) == 0 {
				// append of nothing
				if st.f.decideCmp(b.n, opEQ) == 1 {
					return c.ret(a)
				}
			}
		case *StrV:
			add = st.seg(bytesOf(st, b))
		default:
			return c.ret(symValue(fresh("append"), rt))
		}
	} else {
		return c.ret(a)
	}
	st.event(&Event{kind: "append", name: a.vkey(), args: []Value{a}, site: c.in.(ssa.Instruction), chunk: add})
	st.trace = st.trace[:len(st.trace)-1]
	cs := append(append([]*Chunk{}, st.seg(a)...), add...)
	n := a.n.add(chunksLen(add))
	o := c.e.newObj(st, c.fr.ctx, fmt.Sprintf("append%d", siteIndex(c.in.(ssa.Instruction))), et, true)
	st.mem[o] = contArr(et, cs)
	res := &SliceV{ptr: &PtrV{obj: o}, off: linC(0), n: n, cap: n.add(lenAtom("capx(" + o.name + ")"))}
	if nn := st.f.decideCmp(n, opEQ); nn != 0 {
		// nothing at all may have been appended to nil
		if st.decide(st.nilCond(a)) != 0 {
			res.nilName = "nil(" + o.name + ")"
		}
	}
	return c.ret(res)
}

func (c *call) copyTo() []outcome {
	st := c.st
	d, _ := c.args[0].(*SliceV)
	var src []*Chunk
	var sn *Lin
	switch b := c.args[1].(type) {
	case *SliceV:
		src, sn = st.seg(b), b.n
	case *StrV:
		src, sn = st.seg(bytesOf(st, b)), b.n
	}
	if d == nil || sn == nil {
		for _, a := range c.args[:1] {
			c.havocArg(a, 0)
		}
		return c.ret(lenAtom(fresh("copy")))
	}
	var outs []outcome
	do := func(st *State, n *Lin) {
		n = st.f.reduce(n)
		if d.isNil || n.constIs(0) || d.ptr == nil {
			outs = append(outs, outcome{st, n})
			return
		}
		arr := st.arr(d)
		k, isC := n.intConst()
		switch {
		case isC && k <= 64:
			whole := &ArrV{elem: arr.elem, isCont: true, content: src}
			for i := 0; i < k; i++ {
				arr = arr.set(st.f, d.off.addC(int64(i)), whole.get(st.f, linC(int64(i))))
			}
		default:
			whole := &Chunk{arr: contArr(arr.elem, src), off: linC(0), end: n}
			if len(src) == 1 && src[0].arr != nil {
				whole = &Chunk{arr: src[0].arr, off: src[0].off, end: src[0].off.add(n)}
			}
			arr = arr.setRange(d.off, n, whole)
		}
		st.store(d.ptr, arr)
		outs = append(outs, outcome{st, n})
	}
	le := boolCmp(d.n.sub(sn), opLE)
	switch st.decide(le) {
	case 1:
		do(st, d.n)
	case 0:
		do(st, sn)
	default:
		no := st.clone()
		if st.assume(le, true) {
			do(st, d.n)
		}
		if no.assume(le, false) {
			do(no, sn)
		}
	}
	return outs
}

// --- models of the standard library

type prefixModel struct {
	prefix string
	m      model
}

func mNop(c *call) []outcome {
	for _, a := range c.args {
		_ = a
	}
	r := c.sig.Results()
	if r.Len() == 0 {
		return c.ret(TupleV{})
	}
	return c.ret(c.freshResults())
}

func mPure(c *call) []outcome {
	v := c.pure()
	// a value that is not a pointer of its own is not nil
	return c.ret(nonNilStr(c.st, v))
}

func nonNilStr(st *State, v Value) Value { return v }

func mErr(c *call) []outcome {
	return c.ret(newError(c.name, c.args, c.in.(ssa.Instruction)))
}

// mFallible: results or an error.
func mFallible(c *call) []outcome {
	var s []string
	for _, a := range c.args {
		s = append(s, c.argKey(a))
	}
	name := c.name + "(" + strings.Join(s, ",") + ")"
	r := c.sig.Results()
	bad := c.st.clone()
	fails := boolAtom("fails " + name)
	var outs []outcome
	if c.st.assume(fails, false) {
		var t TupleV
		for i := 0; i < r.Len()-1; i++ {
			v := symValue(fmt.Sprintf("%s#%d", name, i), r.At(i).Type())
			t = append(t, nonNil(v))
		}
		t = append(t, &IfaceV{isNil: true})
		outs = append(outs, outcome{c.st, one1(t)})
	}
	if bad.assume(fails, true) {
		var t TupleV
		for i := 0; i < r.Len()-1; i++ {
			t = append(t, zeroValue(r.At(i).Type()))
		}
		t = append(t, newError(c.name, c.args, c.in.(ssa.Instruction)))
		outs = append(outs, outcome{bad, one1(t)})
	}
	return outs
}

func one1(t TupleV) Value {
	if len(t) == 1 {
		return t[0]
	}
	return t
}

func nonNil(v Value) Value {
	switch x := v.(type) {
	case *PtrV:
		y := *x
		y.nilName = ""
		return &y
	case *IfaceV:
		y := *x
		y.nn = true
		return &y
	case *MapV:
		y := *x
		y.nilName = ""
		return &y
	case *ChanV:
		y := *x
		y.nilName = ""
		return &y
	case *FuncV:
		return x
	}
	return v
}

// mFallibleFresh: like mFallible, but not a function of the arguments.
func mFallibleFresh(c *call) []outcome {
	c.event("ext")
	r := c.sig.Results()
	bad := c.st.clone()
	var t, u TupleV
	name := fresh(c.name)
	for i := 0; i < r.Len()-1; i++ {
		t = append(t, nonNil(symValue(fmt.Sprintf("%s#%d", name, i), r.At(i).Type())))
		u = append(u, zeroValue(r.At(i).Type()))
	}
	t = append(t, &IfaceV{isNil: true})
	u = append(u, newError(c.name, c.args, c.in.(ssa.Instruction)))
	c.st.trace[len(c.st.trace)-1].res = t
	return []outcome{{c.st, one1(t)}, {bad, one1(u)}}
}

var models map[string]model
var modelPrefixes []prefixModel

func init() {
	models = map[string]model{}
	for _, n := range []string{"errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		models[n] = mErr
	}
	for _, n := range []string{"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack"} {
		models[n] = func(c *call) []outcome {
			// nil stays nil
			nc := c.st.nilCond(c.args[0])
			no := c.st.clone()
			var outs []outcome
			if c.st.assume(nc, false) {
				outs = append(outs, outcome{c.st, newError(c.name, c.args, c.in.(ssa.Instruction))})
			}
			if no.assume(nc, true) {
				outs = append(outs, outcome{no, &IfaceV{isNil: true}})
			}
			return outs
		}
	}
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println", "log.Print", "log.Println", "log.Printf", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln"} {
		models[n] = mNop
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "strconv.Quote"} {
		models[n] = mPure
	}
	models["fmt.Sprintf"] = mSprintf
	models["fmt.Sprint"] = mSprintf
	for name, f := range map[string]func(s, t string) bool{"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix} {
		models[name] = func(c *call) []outcome {
			s, ok1 := c.args[0].(*StrV)
			t, ok2 := c.args[1].(*StrV)
			if ok1 && ok2 && s.lit != nil && t.lit != nil {
				return c.ret(boolC(f(*s.lit, *t.lit)))
			}
			return mPure(c)
		}
	}
	models["strings.ContainsRune"] = func(c *call) []outcome {
		s, ok1 := c.args[0].(*StrV)
		l, ok2 := c.args[1].(*Lin)
		if ok1 && ok2 && s.lit != nil {
			if r, ok := l.intConst(); ok {
				return c.ret(boolC(strings.ContainsRune(*s.lit, rune(r))))
			}
		}
		return mPure(c)
	}
	models["strconv.Itoa"] = func(c *call) []outcome {
		if l, ok := c.args[0].(*Lin); ok {
			return c.ret(c.itoa(l))
		}
		return mPure(c)
	}
	for _, n := range []string{"strconv.FormatInt", "strconv.FormatUint"} {
		models[n] = func(c *call) []outcome {
			l, ok := c.args[0].(*Lin)
			base, isL := c.args[1].(*Lin)
			if b, isC := base.intConst(); ok && isL && isC && b == 10 {
				return c.ret(c.itoa(l))
			}
			return mPure(c)
		}
	}
	modelPrefixes = []prefixModel{
		{"github.com/sirupsen/logrus.", mNop}, {"(*github.com/sirupsen/logrus.", mNop},
		{"strings.", mPure}, {"math.", mPure}, {"math/bits.", mPure}, {"unicode.", mPure}, {"unicode/utf8.", mPure},
		{"path/filepath.", mPure}, {"strconv.Append", mPure}, {"strconv.Format", mPure},
		{"(net.IP).", mPure}, {"(time.Duration).", mPure}, {"(time.Time).", mPure},
		{"strconv.Parse", mFallible}, {"strconv.Atoi", mFallible},
	}
	models["log.Fatal"] = func(c *call) []outcome { c.event("fatal"); return nil }
	models["log.Fatalf"] = models["log.Fatal"]
	models["os.Exit"] = models["log.Fatal"]
	models["os.Getenv"] = mPure
	models["os.Getuid"] = mPure
	models["time.Now"] = mNop
	models["time.Since"] = mPure
	models["time.Until"] = mPure
	models["time.Sleep"] = func(c *call) []outcome { c.event("sleep"); return c.ret(TupleV{}) }
	timer := func(c *call) []outcome { c.event("timer"); return c.ret(nonNil(c.freshResults())) }
	for _, n := range []string{"time.NewTimer", "time.NewTicker", "time.AfterFunc", "time.After", "time.Tick"} {
		models[n] = timer
	}
	for _, n := range []string{"Timer).Stop", "Timer).Reset", "Ticker).Stop", "Ticker).Reset"} {
		models["(*time."+n] = func(c *call) []outcome { c.event("timer"); return c.ret(c.freshResults()) }
	}
	models["context.Background"] = func(c *call) []outcome { return c.ret(nonNil(c.results("context.Background"))) }
	models["context.TODO"] = models["context.Background"]
	models["context.WithTimeout"] = mContext
	models["context.WithDeadline"] = mContext
	models["context.WithCancel"] = mContext
	models["invoke context.Context.Done"] = func(c *call) []outcome {
		n := c.args[0].(*IfaceV).name
		v := symValue("done("+n+")", c.sig.Results().At(0).Type())
		return c.ret(nonNil(v))
	}
	models["invoke context.Context.Err"] = func(c *call) []outcome { return c.ret(nonNil(c.freshResults())) }

	lock := func(kind string) model {
		return func(c *call) []outcome { return c.lock(kind) }
	}
	models["(*sync.Mutex).Lock"] = lock("lock")
	models["(*sync.RWMutex).Lock"] = lock("lock")
	models["(*sync.RWMutex).RLock"] = lock("rlock")
	models["(*sync.Mutex).Unlock"] = lock("unlock")
	models["(*sync.RWMutex).Unlock"] = lock("unlock")
	models["(*sync.RWMutex).RUnlock"] = lock("runlock")

	models["(*sync.Pool).Get"] = func(c *call) []outcome { return c.poolGet() }
	models["(*sync.Pool).Put"] = func(c *call) []outcome {
		c.event("pool put")
		if p, ok := c.args[0].(*PtrV); ok && c.e.precise {
			k := "pool " + p.vkey()
			old, _ := c.st.flags[k].(TupleV)
			c.st.flags[k] = append(append(TupleV{}, old...), c.args[1])
		}
		return c.ret(TupleV{})
	}
	models["(*sync.Once).Do"] = func(c *call) []outcome {
		no := c.st.clone()
		outs := []outcome{{no, TupleV{}}}
		if f, ok := c.args[1].(*FuncV); ok && f.fn != nil {
			sub := *c
			for _, o := range sub.callFunc(f.fn, f.binds, nil) {
				outs = append(outs, outcome{o.st, TupleV{}})
			}
		}
		return outs
	}

	models["bytes.NewBuffer"] = func(c *call) []outcome {
		s, _ := c.args[0].(*SliceV)
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := c.e.newObj(c.st, c.fr.ctx, fmt.Sprintf("buf%d", siteIndex(c.in.(ssa.Instruction))), t, false)
		b := &BufV{}
		if s == nil {
			b = symValue(fresh("buf"), t).(*BufV)
		} else if !s.isNil {
			b.cs = c.st.rawSeg(s)
			b.src = s
		}
		c.st.mem[o] = b
		return c.ret(&PtrV{obj: o})
	}
	models["bytes.NewBufferString"] = func(c *call) []outcome {
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := c.e.newObj(c.st, c.fr.ctx, fmt.Sprintf("buf%d", siteIndex(c.in.(ssa.Instruction))), t, false)
		b := &BufV{}
		if s, ok := c.args[0].(*StrV); ok {
			b.cs = c.st.seg(bytesOf(c.st, s))
		}
		c.st.mem[o] = b
		return c.ret(&PtrV{obj: o})
	}
	for n, m := range map[string]model{
		"Bytes": bufBytes, "Len": bufLen, "Next": bufNext, "Read": bufRead, "ReadByte": bufReadByte, "Reset": bufReset,
		"String": bufString, "Write": bufWrite, "WriteByte": bufWriteByte, "WriteString": bufWriteString, "Grow": mNop, "Truncate": bufTruncate,
		"Cap": mNop, "UnreadByte": bufUnreadByte,
	} {
		models["(*bytes.Buffer)."+n] = m
	}
	models["encoding/binary.Write"] = binaryWrite
	models["encoding/binary.Read"] = binaryRead
	models["encoding/binary.Size"] = func(c *call) []outcome {
		if v, ok := c.args[0].(*IfaceV); ok && v.t != nil {
			t := v.t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n := fixedSize(t); n > 0 {
				return c.ret(linC(int64(n)))
			}
		}
		return c.ret(c.freshResults())
	}
	models["io.ReadFull"] = func(c *call) []outcome {
		p := c.bufArg(c.args[0])
		d, _ := c.args[1].(*SliceV)
		if p == nil || d == nil {
			return c.unknown()
		}
		return c.readInto(p, d, true)
	}
	for _, w := range []int{2, 4, 8} {
		w := w
		for _, end := range []string{"bigEndian", "littleEndian"} {
			big := end == "bigEndian"
			models[fmt.Sprintf("(encoding/binary.%s).Uint%d", end, w*8)] = func(c *call) []outcome { return c.endianGet(w, big) }
			models[fmt.Sprintf("(encoding/binary.%s).PutUint%d", end, w*8)] = func(c *call) []outcome { return c.endianPut(w, big, false) }
			models[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", end, w*8)] = func(c *call) []outcome { return c.endianPut(w, big, true) }
		}
	}
	models["math.Float32bits"] = func(c *call) []outcome { return c.ret(floatBits(c.args[0], 32)) }
	models["math.Float64bits"] = func(c *call) []outcome { return c.ret(floatBits(c.args[0], 64)) }
	models["math.Float32frombits"] = func(c *call) []outcome { return c.ret(floatOf(c.st, c.args[0].(*Lin), 32)) }
	models["math.Float64frombits"] = func(c *call) []outcome { return c.ret(floatOf(c.st, c.args[0].(*Lin), 64)) }

	models["net.IPv4"] = func(c *call) []outcome {
		// 16 bytes, the last 4 are the address
		var cs []*Chunk
		for i := 0; i < 16; i++ {
			v := Value(linC(0))
			if i == 10 || i == 11 {
				v = linC(255)
			}
			if i >= 12 {
				v = c.args[i-12]
			}
			cs = append(cs, &Chunk{v: v})
		}
		return c.ret(sliceOf(c.st, cs, types.Typ[types.Uint8], "IPv4"))
	}
	models["(net.IP).To4"] = mTo4
	models["net.ParseCIDR"] = mFallible
	models["net.ParseIP"] = mPure
	models["net.ResolveUDPAddr"] = mFallible
	models["net.InterfaceByName"] = mFallible
	models["net.ListenUDP"] = mFallibleFresh
	models["(*net.Interface).Addrs"] = mFallible
	models["(*net.UDPConn).ReadFromUDP"] = func(c *call) []outcome {
		b, _ := c.args[1].(*SliceV)
		c.havocArg(c.args[1], 0)
		outs := mFallibleFresh(c)
		for _, o := range outs {
			if t, ok := o.v.(TupleV); ok && b != nil {
				n := t[0].(*Lin)
				o.st.f.assumeCmp(n.neg(), opLE)
				o.st.f.assumeCmp(n.sub(b.n), opLE)
				// the socket is an IPv4 one
				if p, ok := t[1].(*PtrV); ok && !p.isNil && p.obj != nil {
					if s, ok := o.st.root(p.obj).(*StructV); ok {
						for i := 0; i < s.t.NumFields(); i++ {
							f := &PtrV{obj: p.obj, path: []Step{{field: i}}}
							switch v := s.field(i).(type) {
							case *SliceV:
								o.st.store(f, &SliceV{ptr: v.ptr, off: v.off, n: linC(4), cap: linC(4)})
							case *Lin:
								o.st.f.assumeCmp(v.neg(), opLE)
								o.st.f.assumeCmp(v.addC(-65535), opLE)
							}
						}
					}
				}
			}
		}
		return outs
	}
	models["(*net.UDPConn).WriteTo"] = mFallibleFresh
	models["(*net.UDPConn).WriteToUDP"] = mFallibleFresh
	models["(*net.conn).Close"] = mFallibleFresh
	models["(*net.UDPConn).Close"] = mFallibleFresh
	models["invoke io.Closer.Close"] = mFallibleFresh
	models["invoke net.Addr.String"] = mPure
	models["encoding/json.Marshal"] = mFallible
	models["encoding/json.Unmarshal"] = func(c *call) []outcome {
		c.havocArg(c.args[1], 0)
		return mFallibleFresh(c)
	}
	models["fmt.Sscanf"] = func(c *call) []outcome {
		if o := c.sscanf(); o != nil {
			return o
		}
		if s, ok := c.args[2].(*SliceV); ok {
			for _, ch := range c.st.seg(s) {
				if ch.v != nil {
					c.havocArg(ch.v, 0)
				}
			}
		}
		return mFallibleFresh(c)
	}
	models["regexp.Compile"] = mFallible
	models["regexp.MustCompile"] = func(c *call) []outcome { return c.ret(nonNil(c.pure())) }
	models["(*regexp.Regexp).MatchString"] = mPure
	models["math/big.NewInt"] = func(c *call) []outcome {
		t := c.sig.Results().At(0).Type()
		o := c.e.newObj(c.st, c.fr.ctx, fmt.Sprintf("big%d", siteIndex(c.in.(ssa.Instruction))), t.Underlying().(*types.Pointer).Elem(), false)
		c.st.flags["big "+o.name] = c.args[0]
		return c.ret(&PtrV{obj: o})
	}
	models["(*math/big.Int).SetBytes"] = func(c *call) []outcome {
		p, _ := c.args[0].(*PtrV)
		s, _ := c.args[1].(*SliceV)
		if p == nil || s == nil || p.isNil {
			return c.unknown()
		}
		if k, ok := c.st.f.reduce(s.n).intConst(); ok && k <= 64 {
			cs := c.st.seg(s)
			v := linC(0)
			ok := true
			for i, x := range cs {
				b, isL := x.v.(*Lin)
				if !isL {
					ok = false
					break
				}
				v = v.add(b.mul(pow2(8 * (k - 1 - i))))
			}
			if ok {
				c.st.flags["big "+p.obj.name] = v
				return c.ret(p)
			}
		}
		c.st.flags["big "+p.obj.name] = linAtom(mkAtom("bigbytes["+chunksKey(c.st.seg(s))+"]", 64, false))
		return c.ret(p)
	}
	bigInt := func(signed bool) model {
		return func(c *call) []outcome {
			if p, ok := c.args[0].(*PtrV); ok && !p.isNil {
				if v, ok := c.st.flags["big "+p.obj.name].(*Lin); ok {
					return c.ret(c.st.wrap(v, 64, signed))
				}
			}
			return c.ret(c.freshResults())
		}
	}
	models["(*math/big.Int).Int64"] = bigInt(true)
	models["(*math/big.Int).Uint64"] = bigInt(false)
	models["golang.org/x/text/encoding/unicode.UTF16"] = func(c *call) []outcome { return c.ret(nonNil(c.pure())) }
	models["invoke golang.org/x/text/encoding.Encoding.NewDecoder"] = func(c *call) []outcome { return c.ret(nonNil(c.pure())) }
	models["(*golang.org/x/text/encoding.Decoder).String"] = mFallible
	models["github.com/patrickmn/go-cache.New"] = func(c *call) []outcome { return c.ret(nonNil(c.freshResults())) }
	models["(*github.com/patrickmn/go-cache.cache).Get"] = func(c *call) []outcome { return c.ret(c.pure()) }
	models["(*github.com/patrickmn/go-cache.cache).Set"] = func(c *call) []outcome { c.event("ext"); return c.ret(TupleV{}) }
	models["encoding/json.NewEncoder"] = func(c *call) []outcome { return c.ret(nonNil(c.freshResults())) }
	models["os/exec.Command"] = func(c *call) []outcome { return c.ret(nonNil(c.freshResults())) }
	models["(*os/exec.Cmd).Run"] = mFallibleFresh
	models["bytes.Equal"] = func(c *call) []outcome {
		a, _ := c.args[0].(*SliceV)
		b, _ := c.args[1].(*SliceV)
		if a != nil && b != nil {
			x, y := chunksKey(c.st.seg(a)), chunksKey(c.st.seg(b))
			if x == y {
				return c.ret(boolC(true))
			}
			if c.st.f.decideCmp(a.n.sub(b.n), opEQ) == 0 {
				return c.ret(boolC(false))
			}
			if x > y {
				x, y = y, x
			}
			return c.ret(boolAtom("eq(" + x + "," + y + ")"))
		}
		return c.ret(c.freshResults())
	}
	sorted := func(c *call) []outcome {
		c.havocArg(c.args[0], 0)
		return c.ret(TupleV{})
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "slices.Sort", "sort.Sort"} {
		models[n] = sorted
	}
}

// ctxInfo: a context made in the analysed code.
type ctxInfo struct {
	name, parent string
	deadline     bool
}

// neverDone: a context without a deadline that was not cancelled.
func (fr *frame) neverDone(st *State, ch *ChanV) bool {
	if ch == nil || ch.obj == nil {
		return false
	}
	n := ch.obj.name
	for i := 0; i < 20; i++ {
		if strings.HasPrefix(n, "done(context.Background") || strings.HasPrefix(n, "done(context.TODO") {
			return true
		}
		c, ok := fr.e.contexts[n]
		if !ok || c.deadline || st.flags["cancelled "+c.name] != nil {
			return false
		}
		n = c.parent
	}
	return false
}

func mContext(c *call) []outcome {
	c.event("ext")
	n := fresh("context")
	parent, _ := c.args[0].(*IfaceV)
	if parent != nil {
		if c.fr.e.contexts == nil {
			c.fr.e.contexts = map[string]ctxInfo{}
		}
		c.fr.e.contexts["done("+n+")"] = ctxInfo{n, "done(" + parent.name + ")", !strings.HasPrefix(c.name, "context.WithCancel")}
	}
	t := TupleV{nonNil(symValue(n, c.sig.Results().At(0).Type())), &FuncV{name: "cancel " + n}}
	c.st.f.b["nil(cancel "+n+")"] = false
	return c.ret(t)
}

// rawSeg is the content of a slice, not element by element.
func (s *State) rawSeg(v *SliceV) []*Chunk {
	if v.isNil || v.n.constIs(0) {
		return nil
	}
	arr := s.arr(v)
	if arr.isCont && len(arr.ov) == 0 {
		return s.seg(v)
	}
	return []*Chunk{{arr: arr, off: s.f.reduce(v.off), end: s.f.reduce(v.off.add(v.n))}}
}

func mTo4(c *call) []outcome {
	s, _ := c.args[0].(*SliceV)
	if s == nil {
		return c.ret(c.pure())
	}
	if s.isNil {
		return c.ret(s)
	}
	switch k, ok := c.st.f.reduce(s.n).intConst(); {
	case ok && k == 4:
		return c.ret(s)
	case ok && k == 16:
		cs := c.st.seg(s)
		pre := true
		for i := 0; i < 12; i++ {
			l, isL := cs[i].v.(*Lin)
			want := int64(0)
			if i >= 10 {
				want = 255
			}
			if !isL || !l.constIs(want) {
				pre = false
			}
		}
		for i := 0; i < 12 && !pre; i++ {
			if l, ok := cs[i].v.(*Lin); ok && l.isConst() && !l.constIs(0) && (i < 10 || !l.constIs(255)) {
				return c.ret(&SliceV{isNil: true, off: linC(0), n: linC(0), cap: linC(0)})
			}
		}
		if pre {
			return c.ret(&SliceV{ptr: s.ptr, off: s.off.addC(12), n: linC(4), cap: linC(4)})
		}
	case ok:
		return c.ret(&SliceV{isNil: true, off: linC(0), n: linC(0), cap: linC(0)})
	}
	// four bytes or nil
	key := "To4(" + c.argKey(s) + ")"
	v := symValue(key, c.sig.Results().At(0).Type()).(*SliceV)
	is := boolAtom("is4 " + key)
	no := c.st.clone()
	var outs []outcome
	if c.st.assume(is, true) {
		c.st.f.assumeCmp(v.n.addC(-4), opEQ)
		outs = append(outs, outcome{c.st, &SliceV{ptr: v.ptr, off: v.off, n: linC(4), cap: v.cap}})
	}
	if no.assume(is, false) {
		outs = append(outs, outcome{no, &SliceV{isNil: true, off: linC(0), n: linC(0), cap: linC(0)}})
	}
	return outs
}

// --- locks

func (c *call) lock(kind string) []outcome {
	st := c.st
	instr := c.in.(ssa.Instruction)
	p, _ := c.args[0].(*PtrV)
	if p == nil || p.isNil {
		c.e.oblige(st, "nil", instr, p != nil && !p.isNil, "lock of nil")
		return nil
	}
	key := p.vkey()
	switch kind {
	case "lock", "rlock":
		c.e.oblige(st, "doublelock", instr, st.held[key] == 0 && (kind == "lock" || st.held["r "+key] == 0) && (kind != "lock" || st.held["r "+key] == 0), key+" is locked already")
		k := key
		if kind == "rlock" {
			k = "r " + key
		}
		st.event(&Event{kind: kind, name: key, args: []Value{p}, site: instr})
		st.held[k]++
		if c.e.onLock != nil {
			c.e.onLock(st, p, kind)
		}
	default:
		k := key
		if kind == "runlock" {
			k = "r " + key
		}
		c.e.oblige(st, "unlock", instr, st.held[k] > 0, key+" is not locked")
		if st.held[k] > 0 {
			st.held[k]--
			if st.held[k] == 0 {
				delete(st.held, k)
			}
		}
		st.event(&Event{kind: kind, name: key, args: []Value{p}, site: instr})
	}
	return c.ret(TupleV{})
}

// poolGet: an element that has been put, or what New makes.
func (c *call) poolGet() []outcome {
	c.event("pool get")
	p, _ := c.args[0].(*PtrV)
	if k := "pool " + vk(c.args[0]); c.e.precise && c.st.flags[k] != nil {
		// one that was put, or a new one
		var outs []outcome
		put := c.st.flags[k].(TupleV)
		// all choices are followed for a few calls, then the last one is taken
		forks := "forks " + k
		n, _ := c.st.flags[forks].(TupleV)
		c.st.flags[forks] = append(append(TupleV{}, n...), boolC(true))
		for i := range put {
			if i < len(put)-1 && (i > 0 || len(n) >= 2) {
				continue
			}
			s := c.st.clone()
			rest := append(append(TupleV{}, put[:i]...), put[i+1:]...)
			s.flags[k] = rest
			if len(rest) == 0 {
				delete(s.flags, k)
			}
			outs = append(outs, outcome{s, put[i]})
		}
		if len(n) >= 2 {
			return outs
		}
		saved := c.st.flags[k]
		delete(c.st.flags, k)
		for _, o := range c.poolGet() {
			o.st.flags[k] = saved
			outs = append(outs, o)
		}
		return outs
	}
	if p != nil && !p.isNil {
		if s, ok := c.st.load(p).(*StructV); ok {
			if f, ok := s.byName("New").(*FuncV); ok && f.fn != nil {
				sub := *c
				var outs []outcome
				for _, o := range sub.callFunc(f.fn, f.binds, nil) {
					outs = append(outs, o)
				}
				return outs
			}
		}
	}
	// what the functions of the module put into it
	iv := c.e.prog.invariants()
	if f, ok := fieldOf(c.in.Common().Args[0]); ok && f.hidden() {
		if vs := iv.poolValues(f); vs != nil {
			news := iv.poolNew(f)
			if len(news) == 1 && len(iv.puts[f]) == 0 && len(news[0].FreeVars) == 0 {
				return c.callFunc(news[0], nil, nil)
			}
			var t types.Type
			for _, v := range vs {
				m, ok := v.(*ssa.MakeInterface)
				if !ok || t != nil && !types.Identical(t, m.X.Type()) || !iv.nonNil(m.X) {
					return c.ret(c.freshResults())
				}
				t = m.X.Type()
			}
			v := symValue(c.fr.ctx+":pooled "+c.in.(ssa.Value).Name(), t)
			c.st.assume(c.st.nilCond(v), false)
			if p, ok := v.(*PtrV); ok && p.obj != nil {
				c.st.mem[p.obj] = c.st.havocValue(c.st.root(p.obj), p.obj, "pooled")
			}
			return c.ret(&IfaceV{t: t, v: v})
		}
	}
	return c.ret(c.freshResults())
}

// --- bytes.Buffer

// bufPtr finds the buffer an argument refers to.
func (c *call) bufArg(v Value) *PtrV {
	if i, ok := v.(*IfaceV); ok {
		v = i.v
	}
	p, _ := v.(*PtrV)
	return p
}

func (c *call) buf(v Value) (*PtrV, *BufV) {
	p := c.bufArg(v)
	instr := c.in.(ssa.Instruction)
	if p == nil {
		c.e.oblige(c.st, "nil", instr, false, "unknown buffer")
		return nil, nil
	}
	nc := c.st.nilCond(p)
	d := c.st.decide(nc)
	c.e.oblige(c.st, "nil", instr, d == 0, "buffer may be nil")
	if d == 1 || d < 0 && !c.st.assume(nc, false) {
		return nil, nil
	}
	b, _ := c.st.load(p).(*BufV)
	if b == nil {
		b = symValue(fresh("buf"), pathTypeOr(p)).(*BufV)
		c.st.store(p, b)
	}
	return p, b
}

func pathTypeOr(p *PtrV) types.Type { return pathTypeObj(p) }

func (s *State) bufLen(b *BufV) *Lin { return s.f.reduce(chunksLen(b.cs)) }

func bufLen(c *call) []outcome {
	_, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	return c.ret(c.st.bufLen(b))
}

func bufBytes(c *call) []outcome {
	_, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	if b.src != nil {
		s := b.src
		// the unread part of it
		n := c.st.bufLen(b)
		return c.ret(&SliceV{ptr: s.ptr, off: c.st.f.reduce(s.off.add(s.n).sub(n)), n: n, cap: n})
	}
	return c.ret(sliceOf(c.st, b.cs, types.Typ[types.Uint8], "bytes"))
}

func bufString(c *call) []outcome {
	_, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	sl := sliceOf(c.st, b.cs, types.Typ[types.Uint8], "bytes")
	return c.ret(c.e.convert(c.st, sl, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String]))
}

func bufReset(c *call) []outcome {
	p, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	c.st.store(p, &BufV{})
	return c.ret(TupleV{})
}

func bufTruncate(c *call) []outcome {
	p, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	n := c.args[1].(*Lin)
	if n.constIs(0) {
		c.st.store(p, &BufV{})
		return c.ret(TupleV{})
	}
	c.st.store(p, symValue(fresh("buf"), pathTypeOr(p)))
	return c.ret(TupleV{})
}

func (c *call) write(v Value, cs []*Chunk) bool {
	p, b := c.buf(v)
	if b == nil {
		return false
	}
	c.st.store(p, &BufV{cs: append(append([]*Chunk{}, b.cs...), cs...)})
	return true
}

func bufWrite(c *call) []outcome {
	s, _ := c.args[1].(*SliceV)
	if s == nil {
		return c.unknown()
	}
	if !c.write(c.args[0], c.st.seg(s)) {
		return nil
	}
	return c.ret(TupleV{s.n, &IfaceV{isNil: true}})
}

func bufWriteByte(c *call) []outcome {
	if !c.write(c.args[0], []*Chunk{{v: c.args[1]}}) {
		return nil
	}
	return c.ret(&IfaceV{isNil: true})
}

func bufWriteString(c *call) []outcome {
	s, _ := c.args[1].(*StrV)
	if s == nil {
		return c.unknown()
	}
	if !c.write(c.args[0], c.st.seg(bytesOf(c.st, s))) {
		return nil
	}
	return c.ret(TupleV{s.n, &IfaceV{isNil: true}})
}

// takeN takes n elements, known to be there, from the chunks.
func (s *State) takeN(cs []*Chunk, n *Lin) (taken, rest []*Chunk) {
	n = s.f.reduce(n)
	for i, c := range cs {
		if n.constIs(0) || s.f.decideCmp(n, opLE) == 1 {
			return taken, cs[i:]
		}
		l := s.f.reduce(c.length())
		if s.f.decideCmp(l.sub(n), opLE) == 1 {
			taken = append(taken, c)
			n = s.f.reduce(n.sub(l))
			continue
		}
		if c.arr == nil {
			panic(undecided{"part of a repetition is read"})
		}
		mid := s.f.reduce(c.off.add(n))
		taken = append(taken, &Chunk{arr: c.arr, off: c.off, end: mid})
		rest = append(rest, &Chunk{arr: c.arr, off: mid, end: c.end})
		return taken, append(rest, cs[i+1:]...)
	}
	return taken, nil
}

// enough splits by whether n bytes are left.
func (c *call) enough(b *BufV, n *Lin) (yes, no *State) {
	l := c.st.bufLen(b)
	cond := boolCmp(n.sub(l), opLE)
	switch c.st.decide(cond) {
	case 1:
		return c.st, nil
	case 0:
		return nil, c.st
	}
	no = c.st.clone()
	if c.st.assume(cond, true) {
		yes = c.st
	}
	if !no.assume(cond, false) {
		no = nil
	}
	return
}

func (st *State) short() { st.flags["short"] = boolC(true) }

func bufNext(c *call) []outcome {
	p, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	n := c.args[1].(*Lin)
	ok := c.st.f.decideCmp(n.neg(), opLE) == 1
	c.e.oblige(c.st, "slice", c.in.(ssa.Instruction), ok, "Next of a number that may be negative: "+n.key)
	if !ok && !c.st.f.assumeCmp(n.neg(), opLE) {
		return nil
	}
	yes, no := c.enough(b, n)
	var outs []outcome
	if yes != nil {
		t, rest := yes.takeN(b.cs, n)
		yes.store(p, &BufV{cs: rest, src: b.src, anchors: b.anchors})
		outs = append(outs, outcome{yes, sliceOf(yes, t, types.Typ[types.Uint8], "next")})
	}
	if no != nil {
		no.store(p, &BufV{src: b.src, anchors: b.anchors})
		no.short()
		outs = append(outs, outcome{no, sliceOf(no, b.cs, types.Typ[types.Uint8], "next")})
	}
	return outs
}

func (c *call) eof() *IfaceV {
	return &IfaceV{name: "io.EOF", nn: true, origin: "io.EOF", site: c.in.(ssa.Instruction)}
}

func bufReadByte(c *call) []outcome {
	p, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	yes, no := c.enough(b, linC(1))
	var outs []outcome
	if yes != nil {
		t, rest := yes.takeN(b.cs, linC(1))
		yes.store(p, &BufV{cs: rest, src: b.src, anchors: b.anchors})
		yes.flags["lastread "+p.vkey()] = &IfaceV{t: types.Typ[types.Int], v: &BufV{cs: b.cs, src: b.src, anchors: b.anchors}}
		outs = append(outs, outcome{yes, TupleV{t[0].at(yes.f, linC(0)), &IfaceV{isNil: true}}})
	}
	if no != nil {
		no.short()
		outs = append(outs, outcome{no, TupleV{linC(0), c.eof()}})
	}
	return outs
}

func bufUnreadByte(c *call) []outcome {
	p, b := c.buf(c.args[0])
	if b == nil {
		return nil
	}
	// the byte before the unread part
	if old, ok := c.st.flags["lastread "+p.vkey()].(*IfaceV); ok && len(b.cs) == 1 && b.cs[0].arr != nil {
		ob := old.v.(*BufV)
		if len(ob.cs) == 1 && ob.cs[0].arr != nil && c.st.f.equal(ob.cs[0].off.addC(1), b.cs[0].off) {
			c.st.store(p, ob)
			delete(c.st.flags, "lastread "+p.vkey())
			return c.ret(&IfaceV{isNil: true})
		}
	}
	c.st.store(p, symValue(fresh("buf"), pathTypeOr(p)))
	return c.ret(c.freshResults())
}

// bufRead reads up to len(p) bytes.
func bufRead(c *call) []outcome {
	p := c.bufArg(c.args[0])
	d, _ := c.args[1].(*SliceV)
	if p == nil || d == nil {
		return c.unknown()
	}
	return c.readInto(p, d, false)
}

func (c *call) readInto(v *PtrV, d *SliceV, full bool) []outcome {
	p, b := c.buf(v)
	if b == nil {
		return nil
	}
	var outs []outcome
	fill := func(st *State, t []*Chunk, n *Lin) {
		if st.f.decideCmp(n, opEQ) == 1 || d.ptr == nil {
			return
		}
		arr := st.arr(d)
		src := &Chunk{arr: contArr(types.Typ[types.Uint8], t), off: linC(0), end: n}
		if len(t) == 1 && t[0].arr != nil {
			src = &Chunk{arr: t[0].arr, off: t[0].off, end: t[0].end}
		}
		if k, ok := st.f.reduce(n).intConst(); ok && k <= 64 {
			for i := 0; i < k; i++ {
				arr = arr.set(st.f, d.off.addC(int64(i)), src.at(st.f, linC(int64(i))))
			}
		} else {
			arr = arr.setRange(d.off, n, src)
		}
		st.store(d.ptr, arr)
	}
	n := c.st.f.reduce(d.n)
	yes, no := c.enough(b, n)
	if yes != nil {
		t, rest := yes.takeN(b.cs, n)
		yes.store(p, &BufV{cs: rest, src: b.src, anchors: b.anchors})
		fill(yes, t, n)
		outs = append(outs, outcome{yes, TupleV{n, &IfaceV{isNil: true}}})
	}
	if no != nil {
		l := no.bufLen(b)
		no.short()
		empty := no.clone()
		if no.f.assumeCmp(l.neg().addC(1), opLE) {
			no.store(p, &BufV{src: b.src, anchors: b.anchors})
			fill(no, b.cs, l)
			var err Value = &IfaceV{isNil: true}
			if full {
				err = &IfaceV{name: "io.ErrUnexpectedEOF", nn: true, origin: "io.ErrUnexpectedEOF", site: c.in.(ssa.Instruction)}
			}
			outs = append(outs, outcome{no, TupleV{l, err}})
		}
		if empty.f.assumeCmp(l, opEQ) {
			empty.store(p, &BufV{src: b.src, anchors: b.anchors})
			outs = append(outs, outcome{empty, TupleV{linC(0), c.eof()}})
		}
	}
	return outs
}

// --- encoding/binary

func fixedSize(t types.Type) int {
	if w, _, ok := intInfo(t); ok {
		b := t.Underlying().(*types.Basic)
		if b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
			return -1
		}
		return w / 8
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Float32:
			return 4
		case types.Float64:
			return 8
		case types.Bool:
			return 1
		}
	case *types.Array:
		if n := fixedSize(u.Elem()); n > 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func floatBits(v Value, w int) *Lin {
	f, _ := v.(*FloatV)
	if f == nil {
		return linAtom(mkAtom(fresh("fbits"), w, false))
	}
	if a, ok := atoms[strings.TrimPrefix(f.name, fmt.Sprintf("bits%d:", w))]; ok && strings.HasPrefix(f.name, fmt.Sprintf("bits%d:", w)) && a.w == w {
		return linAtom(a)
	}
	if l, ok := floatSrc[f.name]; ok && strings.HasPrefix(f.name, fmt.Sprintf("bits%d:", w)) {
		return l
	}
	return linAtom(mkAtom(fmt.Sprintf("fbits%d(%s)", w, f.name), w, false))
}

var floatSrc = map[string]*Lin{}

func floatOf(st *State, l *Lin, w int) *FloatV {
	l = st.f.reduce(l)
	pre := fmt.Sprintf("fbits%d(", w)
	if len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].hi < 0 && l.ts[0].coef.Cmp(bigOne) == 0 && strings.HasPrefix(l.ts[0].a.name, pre) {
		n := strings.TrimSuffix(strings.TrimPrefix(l.ts[0].a.name, pre), ")")
		return &FloatV{name: n, w: w}
	}
	name := fmt.Sprintf("bits%d:%s", w, l.key)
	floatSrc[name] = l
	return &FloatV{name: name, w: w}
}

// byteAt gives byte i (from the least significant one) of a value.
func (s *State) byteAt(l *Lin, i, w int, signed bool) *Lin {
	l = s.f.reduce(l)
	bits := s.opaqueBits(l, w, signed)
	return linFromBits(bits[8*i:8*i+8], false)
}

// fixedBytes are the bytes of a value of a fixed size.
func (c *call) fixedBytes(v Value, t types.Type, bigEnd bool) ([]*Chunk, bool) {
	st := c.st
	if w, s, ok := intInfo(t); ok {
		if fixedSize(t) < 0 {
			return nil, false
		}
		l, ok := v.(*Lin)
		if !ok {
			return nil, false
		}
		var cs []*Chunk
		for i := 0; i < w/8; i++ {
			k := i
			if bigEnd {
				k = w/8 - 1 - i
			}
			cs = append(cs, &Chunk{v: st.byteAt(l, k, w, s)})
		}
		return cs, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Float32:
			return c.fixedBytes(floatBits(v, 32), types.Typ[types.Uint32], bigEnd)
		case types.Float64:
			return c.fixedBytes(floatBits(v, 64), types.Typ[types.Uint64], bigEnd)
		case types.Bool:
			if b, ok := v.(*BoolV); ok {
				switch st.decide(b) {
				case 1:
					return []*Chunk{{v: linC(1)}}, true
				case 0:
					return []*Chunk{{v: linC(0)}}, true
				}
				return []*Chunk{{v: linAtom(mkAtomRange("boolbyte("+b.vkey()+")", 8, false, bigZero, bigOne))}}, true
			}
		}
	case *types.Array:
		a, ok := v.(*ArrV)
		if !ok {
			return nil, false
		}
		var cs []*Chunk
		for i := int64(0); i < u.Len(); i++ {
			x, ok := c.fixedBytes(a.get(st.f, linC(i)), u.Elem(), bigEnd)
			if !ok {
				return nil, false
			}
			cs = append(cs, x...)
		}
		return cs, true
	case *types.Struct:
		sv, ok := v.(*StructV)
		if !ok {
			return nil, false
		}
		var cs []*Chunk
		for i := 0; i < u.NumFields(); i++ {
			x, ok := c.fixedBytes(sv.field(i), u.Field(i).Type(), bigEnd)
			if !ok {
				return nil, false
			}
			cs = append(cs, x...)
		}
		return cs, true
	case *types.Slice:
		sl, ok := v.(*SliceV)
		if !ok {
			return nil, false
		}
		if fixedSize(u.Elem()) == 1 {
			return st.seg(sl), true
		}
		if k, ok := st.f.reduce(sl.n).intConst(); ok && k <= 64 {
			var cs []*Chunk
			for _, ch := range st.seg(sl) {
				x, ok := c.fixedBytes(ch.v, u.Elem(), bigEnd)
				if !ok {
					return nil, false
				}
				cs = append(cs, x...)
			}
			return cs, true
		}
	case *types.Pointer:
		p, ok := v.(*PtrV)
		if ok && st.decide(st.nilCond(p)) == 0 {
			return c.fixedBytes(st.load(p), u.Elem(), bigEnd)
		}
	}
	return nil, false
}

// order finds out which byte order an argument is: 1 big, 0 little, -1 unknown.
func byteOrder(v Value) int {
	i, _ := v.(*IfaceV)
	if i == nil || i.t == nil {
		return -1
	}
	switch n := i.t.String(); {
	case strings.HasSuffix(n, "bigEndian"):
		return 1
	case strings.HasSuffix(n, "littleEndian"):
		return 0
	}
	return -1
}

func binaryWrite(c *call) []outcome {
	v, _ := c.args[2].(*IfaceV)
	ord := byteOrder(c.args[1])
	nilErr := &IfaceV{isNil: true}
	if v == nil || v.isNil || v.t == nil || ord < 0 {
		if v != nil && v.isNil {
			return c.ret(newError("encoding/binary.Write", c.args, c.in.(ssa.Instruction)))
		}
		// an unknown value: what is written is unknown
		p, b := c.buf(c.args[0])
		if b == nil {
			return nil
		}
		bad := c.st.clone()
		n := fresh("written")
		arr := &ArrV{elem: types.Typ[types.Uint8], base: n}
		c.st.store(p, &BufV{cs: append(append([]*Chunk{}, b.cs...), &Chunk{arr: arr, off: linC(0), end: lenAtom("len(" + n + ")")})})
		return []outcome{{c.st, nilErr}, {bad, newError("encoding/binary.Write", c.args, c.in.(ssa.Instruction))}}
	}
	cs, ok := c.fixedBytes(v.v, v.t, ord == 1)
	if !ok {
		if !fixedType(v.t) {
			return c.ret(newError("encoding/binary.Write", c.args, c.in.(ssa.Instruction)))
		}
		panic(undecided{"binary.Write of " + v.t.String()})
	}
	if !c.write(c.args[0], cs) {
		return nil
	}
	return c.ret(nilErr)
}

func fixedType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	return fixedSize(t) >= 0
}

// fromBytes makes a value of a fixed size of its bytes.
func (c *call) fromBytes(st *State, bs []Value, t types.Type, bigEnd bool) (Value, bool) {
	if w, s, ok := intInfo(t); ok {
		v := linC(0)
		for i := range bs {
			k := i
			if bigEnd {
				k = len(bs) - 1 - i
			}
			b, ok := bs[i].(*Lin)
			if !ok {
				return nil, false
			}
			v = v.add(b.mul(pow2(8 * k)))
		}
		return st.wrap(v, w, s), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Float32:
			l, ok := c.fromBytes(st, bs, types.Typ[types.Uint32], bigEnd)
			if !ok {
				return nil, false
			}
			return floatOf(st, l.(*Lin), 32), true
		case types.Float64:
			l, ok := c.fromBytes(st, bs, types.Typ[types.Uint64], bigEnd)
			if !ok {
				return nil, false
			}
			return floatOf(st, l.(*Lin), 64), true
		case types.Bool:
			return boolCmp(bs[0].(*Lin), opNE), true
		}
	case *types.Array:
		n := fixedSize(u.Elem())
		a := &ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			v, ok := c.fromBytes(st, bs[int(i)*n:int(i+1)*n], u.Elem(), bigEnd)
			if !ok {
				return nil, false
			}
			a = a.set(st.f, linC(i), v)
		}
		return a, true
	case *types.Struct:
		sv := &StructV{t: u}
		pos := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			v, ok := c.fromBytes(st, bs[pos:pos+n], u.Field(i).Type(), bigEnd)
			if !ok {
				return nil, false
			}
			sv = sv.with(i, v)
			pos += n
		}
		return sv, true
	}
	return nil, false
}

func binaryRead(c *call) []outcome {
	v, _ := c.args[2].(*IfaceV)
	ord := byteOrder(c.args[1])
	p := c.bufArg(c.args[0])
	if v == nil || v.t == nil || ord < 0 || p == nil {
		// data of an unknown type: it fails, or reads what it likes
		p2, b := c.buf(c.args[0])
		if b == nil {
			return nil
		}
		if v != nil && v.v != nil {
			c.havocArg(v.v, 0)
		}
		bad := c.st.clone()
		if len(b.cs) == 1 && b.cs[0].arr != nil {
			off := lenAtom(fresh("readoff"))
			c.st.f.assumeCmp(b.cs[0].off.sub(off), opLE)
			c.st.f.assumeCmp(off.sub(b.cs[0].end), opLE)
			c.st.store(p2, &BufV{cs: []*Chunk{{arr: b.cs[0].arr, off: off, end: b.cs[0].end}}})
		} else {
			c.st.store(p2, symValue(fresh("buf"), pathTypeOr(p2)))
		}
		return []outcome{{c.st, &IfaceV{isNil: true}}, {bad, newError("encoding/binary.Read", c.args, c.in.(ssa.Instruction))}}
	}
	if t, ok := v.t.Underlying().(*types.Pointer); ok {
		if _, ok := t.Elem().Underlying().(*types.Slice); ok {
			// a pointer to a slice: as the slice
			if q, ok := v.v.(*PtrV); ok && !q.isNil && c.st.decide(c.st.nilCond(q)) == 0 {
				v = &IfaceV{t: t.Elem(), v: c.st.load(q)}
			}
		}
	}
	switch t := v.t.Underlying().(type) {
	case *types.Pointer:
		n := fixedSize(t.Elem())
		dst, _ := v.v.(*PtrV)
		if n < 0 || dst == nil {
			break
		}
		nc := c.st.nilCond(dst)
		if c.st.decide(nc) != 0 {
			c.e.oblige(c.st, "nil", c.in.(ssa.Instruction), false, "binary.Read into a pointer that may be nil")
			return nil
		}
		pb, b := c.buf(p)
		if b == nil {
			return nil
		}
		yes, no := c.enough(b, linC(int64(n)))
		var outs []outcome
		if yes != nil {
			tk, rest := yes.takeN(b.cs, linC(int64(n)))
			arr := &ArrV{elem: types.Typ[types.Uint8], isCont: true, content: tk}
			var bs []Value
			for i := 0; i < n; i++ {
				bs = append(bs, arr.get(yes.f, linC(int64(i))))
			}
			x, ok := c.fromBytes(yes, bs, t.Elem(), ord == 1)
			if !ok {
				panic(undecided{"binary.Read of " + t.Elem().String()})
			}
			yes.store(pb, &BufV{cs: rest, src: b.src, anchors: b.anchors})
			yes.store(dst, x)
			outs = append(outs, outcome{yes, &IfaceV{isNil: true}})
		}
		if no != nil {
			no.short()
			no.store(pb, &BufV{src: b.src, anchors: b.anchors})
			outs = append(outs, outcome{no, &IfaceV{name: "io.ErrUnexpectedEOF", nn: true, origin: "io.EOF", site: c.in.(ssa.Instruction)}})
		}
		return outs
	case *types.Slice:
		dst, _ := v.v.(*SliceV)
		if fixedSize(t.Elem()) == 1 && dst != nil {
			// nothing to read into an empty slice
			outs := c.readInto(p, dst, true)
			for i := range outs {
				outs[i].v = outs[i].v.(TupleV)[1]
			}
			return outs
		}
	}
	if !fixedType(v.t) {
		return c.ret(newError("encoding/binary.Read", c.args, c.in.(ssa.Instruction)))
	}
	panic(undecided{"binary.Read into " + v.t.String()})
}

func (c *call) endianGet(w int, bigEnd bool) []outcome {
	s, _ := c.args[1].(*SliceV)
	if s == nil {
		return c.ret(c.freshResults())
	}
	ok := c.st.f.decideCmp(linC(int64(w)).sub(s.n), opLE) == 1
	c.e.oblige(c.st, "index", c.in.(ssa.Instruction), ok, "slice may be too short for the integer")
	if !ok && !c.st.f.assumeCmp(linC(int64(w)).sub(s.n), opLE) {
		return nil
	}
	arr := c.st.arr(s)
	var bs []Value
	for i := 0; i < w; i++ {
		bs = append(bs, arr.get(c.st.f, s.off.addC(int64(i))))
	}
	v, ok2 := c.fromBytes(c.st, bs, c.sig.Results().At(0).Type(), bigEnd)
	if !ok2 {
		return c.ret(c.freshResults())
	}
	return c.ret(v)
}

func (c *call) endianPut(w int, bigEnd, app bool) []outcome {
	s, _ := c.args[1].(*SliceV)
	if s == nil {
		return c.unknown()
	}
	cs, ok := c.fixedBytes(c.args[2], c.sig.Params().At(1).Type(), bigEnd)
	if !ok {
		return c.unknown()
	}
	if app {
		all := append(append([]*Chunk{}, c.st.seg(s)...), cs...)
		return c.ret(sliceOf(c.st, all, types.Typ[types.Uint8], "appenduint"))
	}
	in := c.st.f.decideCmp(linC(int64(w)).sub(s.n), opLE) == 1
	c.e.oblige(c.st, "index", c.in.(ssa.Instruction), in, "slice may be too short for the integer")
	if !in && !c.st.f.assumeCmp(linC(int64(w)).sub(s.n), opLE) {
		return nil
	}
	arr := c.st.arr(s)
	for i, ch := range cs {
		arr = arr.set(c.st.f, s.off.addC(int64(i)), ch.v)
	}
	c.st.store(s.ptr, arr)
	return c.ret(TupleV{})
}

var _ = big.NewInt

// mSprintf: formats of texts and numbers are concatenations.
func mSprintf(c *call) []outcome {
	if v := c.sprintf(); v != nil {
		return c.ret(v)
	}
	return mPure(c)
}

func (c *call) sprintf() *StrV {
	a, ok := c.args[len(c.args)-1].(*SliceV)
	if !ok {
		return nil
	}
	format := ""
	n, ok := c.st.f.reduce(a.n).intConst()
	if len(c.args) == 1 {
		if n != 1 {
			return nil
		}
		format = "%v"
	} else {
		f, isS := c.args[0].(*StrV)
		if !isS || f.lit == nil {
			return nil
		}
		format = *f.lit
	}
	if !ok || n > 8 {
		return nil
	}
	var cs []*Chunk
	if n > 0 {
		if cs = c.st.seg(a); len(cs) != n {
			return nil
		}
	}
	out := strLit("")
	next := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = concatStr(out, strLit(format[i:i+1]))
			continue
		}
		i++
		if i >= len(format) || next >= len(cs) {
			return nil
		}
		x, ok := cs[next].v.(*IfaceV)
		next++
		if !ok || x.t == nil {
			return nil
		}
		b, ok := x.t.(*types.Basic)
		if !ok {
			// a number is told as one even if its type has a method String
			if b, ok = x.t.Underlying().(*types.Basic); !ok || format[i] != 'd' {
				return nil
			}
		}
		switch v := x.v.(type) {
		case *StrV:
			if format[i] != 's' && format[i] != 'v' {
				return nil
			}
			out = concatStr(out, v)
		case *Lin:
			if format[i] != 'd' && format[i] != 'v' || b.Info()&types.IsInteger == 0 {
				return nil
			}
			out = concatStr(out, c.itoa(v))
		default:
			return nil
		}
	}
	if next != len(cs) {
		return nil
	}
	return out
}

// itoa is the decimal text of a number.
func (c *call) itoa(v *Lin) *StrV {
	l := c.st.f.reduce(v)
	if k, ok := l.intConst(); ok {
		return strLit(strconv.Itoa(k))
	}
	s := *symValue("strconv.Itoa("+l.key+")", types.Typ[types.String]).(*StrV)
	s.num = l
	return &s
}

// sscanf is the inverse of a format with one number.
func (c *call) sscanf() []outcome {
	s, _ := c.args[0].(*StrV)
	f, _ := c.args[1].(*StrV)
	a, _ := c.args[2].(*SliceV)
	if s == nil || f == nil || f.lit == nil || a == nil {
		return nil
	}
	before, after, ok := strings.Cut(*f.lit, "%d")
	if !ok || strings.Contains(before+after, "%") {
		return nil
	}
	cs := c.st.seg(a)
	if len(cs) != 1 {
		return nil
	}
	i, _ := cs[0].v.(*IfaceV)
	if i == nil || i.t == nil {
		return nil
	}
	p, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	to, ok := i.v.(*PtrV)
	if !ok || to.isNil {
		return nil
	}
	bad := func() []outcome {
		return c.ret(TupleV{linC(0), newError(c.name, c.args, c.in.(ssa.Instruction))})
	}
	var num *Lin
	if s.lit != nil {
		var k int64
		if n, err := fmt.Sscanf(*s.lit, *f.lit, &k); err != nil || n != 1 {
			return bad()
		}
		num = linC(k)
	} else if ps := s.pieces(); len(ps) >= 1 {
		if ps[0].lit != nil && !strings.HasPrefix(*ps[0].lit, before) && !strings.HasPrefix(before, *ps[0].lit) {
			return bad()
		}
		if before != "" {
			if ps[0].lit == nil || *ps[0].lit != before {
				return nil
			}
			ps = ps[1:]
		}
		if len(ps) == 0 || ps[0].num == nil {
			return nil
		}
		num = ps[0].num
		if ps = ps[1:]; after != "" {
			if len(ps) == 0 || ps[0].lit == nil || !strings.HasPrefix(*ps[0].lit, after) {
				return nil
			}
		}
	}
	if num == nil {
		return nil
	}
	w, signed, ok := intInfo(p.Elem())
	if !ok {
		return nil
	}
	x := mkAtom(fmt.Sprintf("sscanf %d %v", w, signed), w, signed)
	r := c.st.f.rng(num)
	if r.lo == nil || r.hi == nil || r.lo.Cmp(x.lo) < 0 || r.hi.Cmp(x.hi) > 0 {
		return nil
	}
	c.st.store(to, num)
	return c.ret(TupleV{linC(1), &IfaceV{isNil: true}})
}
