package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. Integer values are *Lin.
type Value interface{ vkey() string }

func (l *Lin) vkey() string { return l.key }

// BoolV is a condition: a constant, a comparison of an integer with 0, or an
// opaque condition.
type BoolV struct {
	isConst bool
	val     bool // the constant, or: the opaque condition is not negated
	l       *Lin
	op      cmpOp
	name    string
}

func boolC(b bool) *BoolV         { return &BoolV{isConst: true, val: b} }
func boolAtom(name string) *BoolV { return &BoolV{name: name, val: true} }

// oneBit is the bit that the value is a function of, if there is just one.
func oneBit(l *Lin) *Lin {
	if len(l.ts) != 1 {
		return nil
	}
	t := l.ts[0]
	if t.hi < 0 || t.hi != t.lo || t.a.signed && t.hi == t.a.w-1 {
		return nil
	}
	return newLin(bigZero, []LTerm{{a: t.a, hi: t.hi, lo: t.lo, coef: bigOne}})
}

func boolCmp(l *Lin, op cmpOp) *BoolV {
	if l.isConst() {
		switch op {
		case opEQ:
			return boolC(l.c.Sign() == 0)
		case opNE:
			return boolC(l.c.Sign() != 0)
		default:
			return boolC(l.c.Sign() <= 0)
		}
	}
	p, k := l.prim()
	if op == opEQ || op == opNE {
		q, r := new(big.Int).QuoRem(l.c, k, new(big.Int))
		if r.Sign() != 0 {
			return boolC(op == opNE)
		}
		l = p.add(linBig(q))
	} else if k.Sign() > 0 {
		// k p + c <= 0  <=>  p + ceil(c/k) <= 0
		q := floorDiv(new(big.Int).Add(l.c, new(big.Int).Sub(k, bigOne)), k)
		l = p.add(linBig(q))
	} else {
		nk := new(big.Int).Neg(k)
		q := floorDiv(new(big.Int).Add(l.c, new(big.Int).Sub(nk, bigOne)), nk)
		l = p.neg().add(linBig(q))
	}
	if x := oneBit(l); x != nil {
		if op == opLE {
			// k x + c <= 0 for x = 0 and for x = 1
			at0 := l.c.Sign() <= 0
			at1 := new(big.Int).Add(l.c, l.ts[0].coef).Sign() <= 0
			switch {
			case at0 && at1 || !at0 && !at1:
				return boolC(at0)
			case at0:
				return &BoolV{l: x, op: opEQ}
			}
			return &BoolV{l: x, op: opNE}
		}
		at0 := l.c.Sign() == 0
		at1 := new(big.Int).Add(l.c, l.ts[0].coef).Sign() == 0
		if !at0 && !at1 {
			return boolC(op == opNE)
		}
		if at0 == (op == opEQ) {
			return &BoolV{l: x, op: opEQ}
		}
		return &BoolV{l: x, op: opNE}
	}
	return &BoolV{l: l, op: op}
}

func (b *BoolV) vkey() string {
	switch {
	case b.isConst:
		return fmt.Sprint(b.val)
	case b.l != nil:
		return "(" + b.l.key + [...]string{"==0", "!=0", "<=0"}[b.op] + ")"
	case b.val:
		return b.name
	}
	return "!" + b.name
}

func (b *BoolV) not() *BoolV {
	switch {
	case b.isConst:
		return boolC(!b.val)
	case b.l != nil:
		switch b.op {
		case opEQ:
			return &BoolV{l: b.l, op: opNE}
		case opNE:
			return &BoolV{l: b.l, op: opEQ}
		}
		return boolCmp(b.l.neg().addC(1), opLE)
	}
	return &BoolV{name: b.name, val: !b.val}
}

// FloatV is a floating point number.
type FloatV struct {
	name string
	w    int
}

func (v *FloatV) vkey() string { return "f:" + v.name }

// StrV is a string.
type StrV struct {
	lit   *string
	name  string
	n     *Lin
	src   *Chunk  // the bytes it was made of
	parts []*StrV // what it is a concatenation of
	num   *Lin    // the number that it is the decimal text of
}

func (v *StrV) vkey() string {
	if v.lit != nil {
		return fmt.Sprintf("%q", *v.lit)
	}
	return "s:" + v.name
}

// Obj is a memory location. sym: what it holds at first is unknown.
type Obj struct {
	name string
	typ  types.Type // type of the value in it
	sym  bool
	elem bool // backing array of a slice: typ is the element type
	may  bool // may be the same location as another object
	glob *ssa.Global
	init Value // what it holds at first, if known
}

// Step is a field or an element on the way from an object to a part of it.
type Step struct {
	field int
	idx   *Lin // element if not nil
}

// PtrV is a pointer. nilName: name of the condition that it is nil, if unknown.
type PtrV struct {
	isNil   bool
	nilName string
	obj     *Obj
	path    []Step
}

func pathKey(p []Step) string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx != nil {
			sb.WriteString("[" + s.idx.key + "]")
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	return sb.String()
}

func (v *PtrV) vkey() string {
	if v.isNil {
		return "nil"
	}
	return "&" + v.obj.name + pathKey(v.path)
}

// SliceV is a slice of the array in obj.
type SliceV struct {
	isNil   bool
	nilName string
	ptr     *PtrV // the array
	off     *Lin
	n       *Lin
	cap     *Lin
}

func (v *SliceV) vkey() string {
	if v.isNil {
		return "nil[]"
	}
	return "slice(" + v.ptr.vkey() + "," + v.off.key + "," + v.n.key + ")"
}

// ArrV is the value of an array or of the backing array of a slice.
type ArrV struct {
	elem    types.Type
	base    string // unknown elements have names made of it; "": zero values
	content []*Chunk
	isCont  bool
	ov      []ovEntry
	k       string
}

type ovEntry struct {
	lo  *Lin
	n   *Lin // nil: one element
	v   Value
	src *Chunk // n elements of it
}

func (v *ArrV) vkey() string {
	if v.k != "" {
		return v.k
	}
	var sb strings.Builder
	if v.isCont {
		sb.WriteString("cont(" + chunksKey(v.content) + ")")
	} else if v.base == "" {
		sb.WriteString("zero")
	} else {
		sb.WriteString(v.base)
	}
	for _, o := range v.ov {
		if o.n == nil {
			sb.WriteString("{" + o.lo.key + ":=" + o.v.vkey() + "}")
		} else {
			sb.WriteString("{" + o.lo.key + "+" + o.n.key + ":=" + o.src.key() + "}")
		}
	}
	v.k = sb.String()
	return v.k
}

// Chunk is a piece of a sequence: one element, a part of an array, or a
// repetition.
type Chunk struct {
	v    Value // one element
	arr  *ArrV
	off  *Lin
	end  *Lin
	star *Star
}

func (c *Chunk) key() string {
	switch {
	case c.v != nil:
		return c.v.vkey()
	case c.star != nil:
		return c.star.name
	}
	return c.arr.vkey() + "[" + c.off.key + ":" + c.end.key + "]"
}

func chunksKey(cs []*Chunk) string {
	s := make([]string, len(cs))
	for i, c := range cs {
		s[i] = c.key()
	}
	return strings.Join(s, " ")
}

func (c *Chunk) length() *Lin {
	switch {
	case c.v != nil:
		return linC(1)
	case c.star != nil:
		return c.star.n
	}
	return c.end.sub(c.off)
}

func chunksLen(cs []*Chunk) *Lin {
	n := linC(0)
	for _, c := range cs {
		n = n.add(c.length())
	}
	return n
}

// Star is what a loop adds to a sequence: any number of its alternatives.
type Star struct {
	name  string
	kappa *Atom
	n     *Lin
	alts  []StarAlt
}

// StarAlt is what one iteration adds.
type StarAlt struct {
	chunks []*Chunk
	events []*Event
	f      *Facts
	st     *State
}

// MapV, ChanV: reference to an object.
type MapV struct {
	isNil   bool
	nilName string
	obj     *Obj
	typ     *types.Map
}

func (v *MapV) vkey() string {
	if v.isNil {
		return "nil"
	}
	return "map " + v.obj.name
}

// MapState is what a map holds: known entries over an unknown rest.
type MapState struct {
	base string // "": empty
	ents []mapEnt
}

type mapEnt struct {
	k       Value
	v       Value
	present bool
}

func (m *MapState) vkey() string {
	var sb strings.Builder
	sb.WriteString("mapstate " + m.base)
	for _, e := range m.ents {
		if e.present {
			sb.WriteString("{" + e.k.vkey() + ":" + e.v.vkey() + "}")
		} else {
			sb.WriteString("{-" + e.k.vkey() + "}")
		}
	}
	return sb.String()
}

type ChanV struct {
	isNil   bool
	nilName string
	obj     *Obj
	elem    types.Type
}

func (v *ChanV) vkey() string {
	if v.isNil {
		return "nil"
	}
	return "chan " + v.obj.name
}

// ChanState is what is known about a channel.
type ChanState struct {
	cap    *Lin
	closed string // "no", "yes", "?"
	sends  int
	queue  []Value
}

func (c *ChanState) vkey() string {
	k := fmt.Sprintf("chanstate %v %s %d", c.cap, c.closed, c.sends)
	for _, v := range c.queue {
		k += " " + vk(v)
	}
	return k
}

// FuncV is a function value.
type FuncV struct {
	isNil bool
	name  string // unknown function
	fn    *ssa.Function
	binds []Value
}

func (v *FuncV) vkey() string {
	if v.isNil {
		return "nil"
	}
	if v.fn == nil {
		return "func " + v.name
	}
	s := "func " + v.fn.String()
	for _, b := range v.binds {
		s += "," + b.vkey()
	}
	return s
}

// IfaceV is an interface value: nil, of a known dynamic type, or unknown.
type IfaceV struct {
	isNil  bool
	t      types.Type
	v      Value
	name   string // unknown
	origin string // how an error came to be
	args   []Value
	site   ssa.Instruction
	nn     bool       // it is not nil
	impl   types.Type // an interface type that it is known to implement
}

func (v *IfaceV) vkey() string {
	switch {
	case v.isNil:
		return "nil"
	case v.t != nil:
		return "iface(" + shortType(v.t) + "," + v.v.vkey() + ")"
	}
	return "iface " + v.name
}

// StructV is a struct value.
type StructV struct {
	t    *types.Struct
	base string // unknown fields have names made of it; "": zero values
	f    map[int]Value
}

func (v *StructV) vkey() string {
	var ks []int
	for k := range v.f {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var sb strings.Builder
	sb.WriteString("struct(" + v.base)
	for _, k := range ks {
		s := v.f[k].vkey()
		if s == defaultField(v, k).vkey() {
			continue
		}
		fmt.Fprintf(&sb, " %d:%s", k, s)
	}
	sb.WriteString(")")
	return sb.String()
}

// BufV is a bytes.Buffer.
type BufV struct {
	cs     []*Chunk
	unread *Chunk
	src    *SliceV // the slice it was made of, as long as it is only read

	anchors []*Lin // offsets relative to which the position is to be known after a join
}

func (v *BufV) vkey() string { return "buf(" + chunksKey(v.cs) + ")" }

type TupleV []Value

func (v TupleV) vkey() string {
	s := make([]string, len(v))
	for i, x := range v {
		if x == nil {
			s[i] = "-"
			continue
		}
		s[i] = x.vkey()
	}
	return "(" + strings.Join(s, ",") + ")"
}

// OpaqueV is a value that nothing is known about.
type OpaqueV struct{ name string }

func (v *OpaqueV) vkey() string { return "opaque " + v.name }

// --- construction

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeIvl(w int, signed bool) ivl {
	if signed {
		return ivl{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bigOne)}
	}
	return ivl{bigZero, new(big.Int).Sub(pow2(w), bigOne)}
}

// lenAtom is an unknown length.
func lenAtom(name string) *Lin {
	return linAtom(mkAtomRange(name, 48, false, bigZero, pow2(46)))
}

var isBufferT = func(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

// symValue is an unknown value of the type; the same name gives the same value.
func symValue(name string, t types.Type) Value {
	if isBufferT(t) {
		arr := &ArrV{elem: types.Typ[types.Uint8], base: name + ".buf"}
		return &BufV{cs: []*Chunk{{arr: arr, off: linC(0), end: lenAtom("len(" + name + ".buf)")}}}
	}
	if w, s, ok := intInfo(t); ok {
		return linAtom(mkAtom(name, w, s))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolAtom(name)
		case u.Info()&types.IsFloat != 0:
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			return &FloatV{name: name, w: w}
		case u.Info()&types.IsString != 0:
			return &StrV{name: name, n: lenAtom("len(" + name + ")")}
		case u.Kind() == types.UnsafePointer:
			return &OpaqueV{name}
		}
	case *types.Pointer:
		return &PtrV{nilName: "nil(" + name + ")", obj: symObj(name+"^", u.Elem(), false)}
	case *types.Slice:
		n := lenAtom("len(" + name + ")")
		return &SliceV{nilName: "nil(" + name + ")", ptr: &PtrV{obj: symObj(name, u.Elem(), true)}, off: linC(0), n: n,
			cap: n.add(lenAtom("capx(" + name + ")"))}
	case *types.Array:
		return &ArrV{elem: u.Elem(), base: name}
	case *types.Struct:
		return &StructV{t: u, base: name}
	case *types.Map:
		return &MapV{nilName: "nil(" + name + ")", obj: symObj(name, u, false), typ: u}
	case *types.Chan:
		return &ChanV{nilName: "nil(" + name + ")", obj: symObj(name, u, false), elem: u.Elem()}
	case *types.Signature:
		return &FuncV{name: name}
	case *types.Interface:
		return &IfaceV{name: name}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, symValue(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	return &OpaqueV{name}
}

var symObjs = map[string]*Obj{}

func symObj(name string, t types.Type, elem bool) *Obj {
	key := name + "|" + t.String()
	if o, ok := symObjs[key]; ok {
		return o
	}
	o := &Obj{name: name, typ: t, sym: true, elem: elem}
	symObjs[key] = o
	return o
}

func nilValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &PtrV{isNil: true}
	case *types.Slice:
		return &SliceV{isNil: true, off: linC(0), n: linC(0), cap: linC(0)}
	case *types.Map:
		return &MapV{isNil: true, typ: u}
	case *types.Chan:
		return &ChanV{isNil: true, elem: u.Elem()}
	case *types.Signature:
		return &FuncV{isNil: true}
	case *types.Interface:
		return &IfaceV{isNil: true}
	}
	return &OpaqueV{"nil"}
}

func zeroValue(t types.Type) Value {
	if isBufferT(t) {
		return &BufV{}
	}
	if _, _, ok := intInfo(t); ok {
		return linC(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolC(false)
		case u.Info()&types.IsFloat != 0:
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			return &FloatV{name: "0", w: w}
		case u.Info()&types.IsString != 0:
			s := ""
			return &StrV{lit: &s, n: linC(0)}
		}
	case *types.Array:
		return &ArrV{elem: u.Elem()}
	case *types.Struct:
		return &StructV{t: u}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroValue(u.At(i).Type()))
		}
		return tv
	}
	return nilValue(t)
}

func strLit(s string) *StrV { return &StrV{lit: &s, n: linC(int64(len(s)))} }

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if _, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return linBig(b)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		w := 64
		if b.Kind() == types.Float32 {
			w = 32
		}
		return &FloatV{name: constant.ToFloat(c.Value).ExactString(), w: w}
	}
	return &OpaqueV{"const " + c.Value.ExactString()}
}

// --- parts of values

func defaultField(v *StructV, i int) Value {
	ft := v.t.Field(i).Type()
	if v.base == "" {
		return zeroValue(ft)
	}
	return symValue(v.base+"."+v.t.Field(i).Name(), ft)
}

func (v *StructV) field(i int) Value {
	if x, ok := v.f[i]; ok {
		return x
	}
	return defaultField(v, i)
}

func (v *StructV) with(i int, x Value) *StructV {
	n := &StructV{t: v.t, base: v.base, f: make(map[int]Value, len(v.f)+1)}
	for k, y := range v.f {
		n.f[k] = y
	}
	n.f[i] = x
	return n
}

// byName finds a field by its name.
func (v *StructV) byName(name string) Value {
	for i := 0; i < v.t.NumFields(); i++ {
		if v.t.Field(i).Name() == name {
			return v.field(i)
		}
	}
	return nil
}

func (a *ArrV) get(f *Facts, idx *Lin) Value {
	idx = f.reduce(idx)
	for i := len(a.ov) - 1; i >= 0; i-- {
		o := a.ov[i]
		if o.n == nil {
			switch f.decideCmp(idx.sub(o.lo), opEQ) {
			case 1:
				return o.v
			case 0:
				continue
			}
			return selValue(a, idx)
		}
		d := idx.sub(o.lo)
		below := f.decideCmp(d.addC(1), opLE)           // d < 0
		above := f.decideCmp(o.n.sub(d), opLE)          // d >= n
		inLow := f.decideCmp(d.neg(), opLE)             // d >= 0
		inHigh := f.decideCmp(d.sub(o.n).addC(1), opLE) // d < n
		if below == 1 || above == 1 {
			continue
		}
		if inLow == 1 && inHigh == 1 {
			return o.src.at(f, d)
		}
		return selValue(a, idx)
	}
	if a.isCont {
		pos := linC(0)
		for _, c := range a.content {
			d := idx.sub(pos)
			n := c.length()
			if f.decideCmp(d.neg(), opLE) == 1 && f.decideCmp(d.sub(n).addC(1), opLE) == 1 && c.star == nil {
				return c.at(f, d)
			}
			if f.decideCmp(n.sub(d), opLE) != 1 {
				break
			}
			pos = pos.add(n)
		}
		return selValue(a, idx)
	}
	if a.base == "" {
		return zeroValue(a.elem)
	}
	return symValue(a.base+"["+idx.key+"]", a.elem)
}

// at gives element d of the chunk.
func (c *Chunk) at(f *Facts, d *Lin) Value {
	if c.v != nil {
		return c.v
	}
	return c.arr.get(f, c.off.add(d))
}

func (a *ArrV) set(f *Facts, idx *Lin, v Value) *ArrV {
	idx = f.reduce(idx)
	n := &ArrV{elem: a.elem, base: a.base, content: a.content, isCont: a.isCont}
	for _, o := range a.ov {
		if o.n == nil && f.decideCmp(o.lo.sub(idx), opEQ) == 1 {
			continue
		}
		n.ov = append(n.ov, o)
	}
	n.ov = append(n.ov, ovEntry{lo: idx, v: v})
	return n
}

func (a *ArrV) setRange(lo, n *Lin, src *Chunk) *ArrV {
	if n.constIs(0) {
		return a
	}
	r := &ArrV{elem: a.elem, base: a.base, content: a.content, isCont: a.isCont, ov: append([]ovEntry{}, a.ov...)}
	r.ov = append(r.ov, ovEntry{lo: lo, n: n, src: src})
	return r
}

// expand writes a part of an array as chunks, elements one by one where the
// length is a small constant, and splices the content of other sequences.
func expandSeg(f *Facts, arr *ArrV, off, end *Lin) []*Chunk {
	n := f.reduce(end.sub(off))
	off = f.reduce(off)
	if k, ok := n.intConst(); ok && k <= 64 {
		hasStar := false
		if arr.isCont {
			for _, c := range arr.content {
				if c.star != nil {
					hasStar = true
				}
			}
		}
		if !hasStar {
			var out []*Chunk
			for i := 0; i < k; i++ {
				out = append(out, &Chunk{v: arr.get(f, off.addC(int64(i)))})
			}
			return out
		}
	}
	if arr.isCont && len(arr.ov) == 0 && off.constIs(0) && f.equal(end, chunksLen(arr.content)) {
		return arr.content
	}
	// one range entry that is exactly this part
	if len(arr.ov) == 1 && arr.ov[0].n != nil && f.equal(arr.ov[0].lo, off) && f.equal(arr.ov[0].n, n) {
		s := arr.ov[0].src
		if s.arr != nil {
			return expandSeg(f, s.arr, s.off, s.end)
		}
		return []*Chunk{s}
	}
	return []*Chunk{{arr: arr, off: off, end: f.reduce(end)}}
}

// selAtoms says of which array and index an unknown element is.
type selAtom struct {
	arr *ArrV
	idx *Lin
}

var selAtoms = map[string]selAtom{}

func selValue(a *ArrV, idx *Lin) Value {
	name := "sel(" + a.vkey() + "," + idx.key + ")"
	selAtoms[name] = selAtom{a, idx}
	return symValue(name, a.elem)
}

// splitIndex checks something for every value of the index of a table.
func (f *Facts) splitIndex(ls []*Lin, check func(f *Facts, ls []*Lin) bool) bool {
	var s *selAtom
	for _, l := range ls {
		for _, t := range f.reduce(l).ts {
			if x, ok := selAtoms[t.a.name]; ok && s == nil {
				s = &x
			}
		}
	}
	if s == nil {
		return false
	}
	r := f.rng(s.idx)
	if r.lo == nil || r.hi == nil || !r.lo.IsInt64() || !r.hi.IsInt64() || r.hi.Int64()-r.lo.Int64() > 1024 {
		return false
	}
	for v := r.lo.Int64(); v <= r.hi.Int64(); v++ {
		g := f.clone()
		if !g.assumeCmp(s.idx.addC(-v), opEQ) {
			continue
		}
		m := map[*Atom]*Lin{}
		for _, l := range ls {
			for _, t := range f.reduce(l).ts {
				if x, ok := selAtoms[t.a.name]; ok {
					if y, ok := x.arr.get(g, x.idx).(*Lin); ok {
						m[t.a] = y
					}
				}
			}
		}
		var out []*Lin
		for _, l := range ls {
			out = append(out, g.reduce(substLin(f.reduce(l), m)))
		}
		if !check(g, out) {
			return false
		}
	}
	return true
}
