package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values ------------------------------------------------------------------------

type Val interface{}

// Addr is an address the executor knows symbolically.
type Addr struct {
	Cell   string // executor-level cell
	Base   string // location term of a heap object
	Root   types.Type
	IsElem bool // element of a slice backing array
	Off    string
	Idx    string
	Global *ssa.Global
	Path   []int
	T      types.Type // pointee type
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	T    types.Type
}

// Iface is an interface value whose dynamic type is known.
type Iface struct {
	Dyn types.Type
	V   Val
	T   types.Type
}

// CellSlice is a slice over a whole local array that has not escaped yet.
type CellSlice struct {
	Cell string
	N    int
	T    types.Type
}

type Tuple []Val

type StructVal struct {
	F []Val
	T types.Type
}

type ArrayVal struct {
	E []Val
	T types.Type
}

type Iter struct {
	Cell string
	X    Val
	T    types.Type // map or string
}

type Cell struct {
	T       types.Type
	V       Val
	Escaped string // heap location once it escaped
	Name    string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	caller *Frame
	key    string // call string
	onRet  func(st *State, vals []Val)
	loops  []*activeLoop
	defers []deferRec
	spec   *Contract
	depth  int
}

type deferRec struct {
	call *ssa.CallCommon
	args []Val
	fv   Val
	ins  ssa.Instruction
}

type State struct {
	heap  map[string]string
	cells map[string]*Cell
	alloc string
	frame *Frame
	trace []string // branch decisions, for reports
}

func (st *State) clone() *State {
	n := &State{heap: make(map[string]string, len(st.heap)), cells: make(map[string]*Cell, len(st.cells)), alloc: st.alloc}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.trace = append([]string(nil), st.trace...)
	n.frame = st.frame.clone()
	return n
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.caller = f.caller.clone()
	n.loops = append([]*activeLoop(nil), f.loops...)
	n.defers = append([]deferRec(nil), f.defers...)
	return &n
}

type activeLoop struct {
	info *loopInfo
	l    *natLoop
	pre  *State
}

// ---- verifier of one function ---------------------------------------------------------------

type Verifier struct {
	lastFrame *Frame
	ground     bool // a lemma whose hints instantiate the axioms
	namedTerms map[string]string
	prog       *Program
	specs      *Specs
	opt        *Options
	sv         *Solver
	so         *Sorts
	fn         *ssa.Function
	c          *Contract
	n          int
	loops      map[string]*loopInfo

	infer   bool
	nfail   int
	changed bool
	entry   *State
	params  map[string]Val
	alloc0  string

	results   []*VC
	assumed   map[string]bool // trusted contracts used
	inlined   map[string]bool
	callees   map[string]bool
	paths     int
	rets      int
	closureID map[string]*Closure
	cuts      map[string]*cutPoint
	stop      bool
	exitOnly  map[string]bool
	mayPanic  []string
	dead      map[string]int
	reqOK     string
	curFn     *ssa.Function
	pureDepth int
	globalsOK map[string]bool
	litFacts  map[string]bool
	smtInited bool
}

type VC struct {
	Name   string   `json:"name"`
	Clause string   `json:"clause"`
	Props  []string `json:"props,omitempty"`
	Status string   `json:"status"`
	By     string   `json:"by"`
	MS     int64    `json:"ms"`
	Model  string   `json:"model,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Path   string   `json:"path,omitempty"`
	Pos    string   `json:"pos,omitempty"`
}

func (v *Verifier) fresh(prefix, sort string) string {
	v.n++
	n := fmt.Sprintf("%s!%d", prefix, v.n)
	v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

// name gives a definition to a large term so that scripts stay small.
func (v *Verifier) name(prefix, sort, term string) string {
	if len(term) < 24 || !strings.HasPrefix(term, "(") {
		return term
	}
	if v.pureDepth > 0 && strings.Contains(term, "q!") {
		return term
	}
	v.n++
	n := fmt.Sprintf("%s!%d", prefix, v.n)
	v.sv.decl(n, fmt.Sprintf("(define-fun %s () %s %s)", n, sort, term))
	return n
}

// named is a constant equal to a term.
func (v *Verifier) named(prefix, sort, term string) string {
	if v.c == nil || v.c.Opts["closed"] == "" {
		return term
	}
	if v.namedTerms == nil {
		v.namedTerms = map[string]string{}
	}
	if c, ok := v.namedTerms[sort+"|"+term]; ok {
		return c
	}
	c := v.fresh(prefix, sort)
	v.sv.fact("(= " + c + " " + term + ")")
	v.namedTerms[sort+"|"+term] = c
	return c
}

func (v *Verifier) freshVal(st *State, prefix string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, v.freshVal(st, prefix, tp.At(i).Type()))
		}
		return r
	}
	n := v.fresh(prefix, v.so.sort(t))
	tm := Term{n, t}
	v.sv.assert(v.wf(st, tm))
	return tm
}

// wf states what is true of every value of a Go type in a state.
func (v *Verifier) wf(st *State, t Term) string {
	if _, ok := v.so.isBV(t.T); ok {
		return "true"
	}
	al := st.alloc
	switch u := t.T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, t.S, t.S, hi)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", t.S, t.S, al)
	case *types.Slice:
		s := t.S
		return fmt.Sprintf("(and (<= 0 (s-loc %s)) (< (s-loc %s) %s) (<= 0 (s-off %s)) (<= 0 (s-len %s)) (<= (s-len %s) (s-cap %s)) (=> (= (s-loc %s) 0) (and (= (s-cap %s) 0) (= (s-off %s) 0))))", s, s, al, s, s, s, s, s, s, s)
	case *types.Interface:
		n := fmt.Sprintf("(and (<= 0 (i-typ %s)) (=> (= (i-typ %s) 0) (= (i-val %s) 0)))", t.S, t.S, t.S)
		if u.NumMethods() > 0 {
			p := v.so.implPred(t.T)
			n = and(n, fmt.Sprintf("(or (= (i-typ %s) 0) (%s (i-typ %s)))", t.S, p, t.S))
		}
		return n
	case *types.Signature:
		return fmt.Sprintf("(<= 0 %s)", t.S)
	case *types.Struct:
		ss := v.so.structSort(t.T)
		var parts []string
		for i := 0; i < u.NumFields(); i++ {
			parts = append(parts, v.wf(st, Term{"(" + ss.fields[i] + " " + t.S + ")", u.Field(i).Type()}))
		}
		return and(parts...)
	}
	return "true"
}

func intRange(b *types.Basic) (string, string) {
	n := intBits(b)
	if isUnsigned(b) {
		return "0", pow2m1(n)
	}
	return "(- " + pow2(n-1) + ")", pow2m1(n - 1)
}

func pow2(n int) string {
	return constant.Shift(constant.MakeInt64(1), token.SHL, uint(n)).ExactString()
}
func pow2m1(n int) string {
	return constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(n)), token.SUB, constant.MakeInt64(1)).ExactString()
}

// ---- heap -----------------------------------------------------------------------------------

func (v *Verifier) heapGet(st *State, key string, sort string) string {
	if h, ok := st.heap[key]; ok {
		return h
	}
	// first use: the entry value is one named constant per key
	n := "H0_" + v.so.ident("heap:"+key)
	if _, ok := v.sv.byN[n]; !ok {
		v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
		if key == "S|Slc" && v.alloc0 != "" && v.c != nil && v.c.Opts["closed"] != "" {
			// slices stored in the entry heap point to storage that was allocated by then
			e := v.so.eltFn(types.NewSlice(types.Typ[types.String]))
			t := fmt.Sprintf("(%s (select %s l) o i)", e, n)
			v.sv.fact(fmt.Sprintf("(forall ((l Int) (o Int) (i Int)) (! (=> (< l %s) (and (<= 0 (s-loc %s)) (< (s-loc %s) %s) (<= 0 (s-off %s)) (<= 0 (s-len %s)) (<= (s-len %s) (s-cap %s)))) :pattern (%s)))", v.alloc0, t, t, v.alloc0, t, t, t, t, t))
		}
		if strings.HasPrefix(key, "M|") && strings.HasSuffix(key, "|Slc|val") && v.alloc0 != "" && v.c != nil && v.c.Opts["closed"] != "" {
			ks := strings.Split(key, "|")[1]
			t := fmt.Sprintf("(select (select %s l) k)", n)
			v.sv.fact(fmt.Sprintf("(forall ((l Int) (k %s)) (! (=> (< l %s) (and (<= 0 (s-loc %s)) (< (s-loc %s) %s) (<= 0 (s-off %s)) (<= 0 (s-len %s)) (<= (s-len %s) (s-cap %s)))) :pattern (%s)))", ks, v.alloc0, t, t, v.alloc0, t, t, t, t, t))
		}
	}
	if hv := st.heap["#havoc"]; hv != "" {
		// everything changed at some point: first use since then
		n = "Hx_" + v.so.ident("heap:"+key+"@"+hv)
		if _, ok := v.sv.byN[n]; !ok {
			v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
		}
		st.heap[key] = n
		return n
	}
	// a key first touched inside a loop that later turns out to modify it is havocked on the rerun
	st.heap[key] = n
	if v.entry != nil {
		if _, ok := v.entry.heap[key]; !ok {
			v.entry.heap[key] = n
		}
	}
	return n
}

func (v *Verifier) heapSet(st *State, key, sort, term string) {
	st.heap[key] = v.name("H", sort, term)
	v.noteMod(st, "h:"+key+"|"+sort)
}

func (v *Verifier) noteMod(st *State, k string) {
	for f := st.frame; f != nil; f = f.caller {
		for _, l := range f.loops {
			if !l.info.mods[k] {
				l.info.mods[k] = true
				v.changed = true
			}
		}
	}
}

func fieldKey(root types.Type, path []int) string {
	var b strings.Builder
	b.WriteString("F|" + typeKey(types.Unalias(root)))
	for _, p := range path {
		b.WriteString("." + strconv.Itoa(p))
	}
	return b.String()
}

func arr(s string) string { return "(Array Int " + s + ")" }

// typeAt walks a field path.
func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		st, ok := structOf(t)
		if !ok {
			panic(unsupported("path into non-struct"))
		}
		t = st.Field(i).Type()
	}
	return t
}

func (v *Verifier) loadHeap(st *State, base string, root types.Type, path []int) Val {
	t := typeAt(root, path)
	if s, ok := structOf(t); ok {
		sv := StructVal{T: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.F = append(sv.F, v.loadHeap(st, base, root, append(append([]int(nil), path...), i)))
		}
		return sv
	}
	srt := v.so.sort(t)
	key := fieldKey(root, path)
	h := v.heapGet(st, key, arr(srt))
	val := Term{v.name("ld", srt, "(select "+h+" "+base+")"), t}
	if v.pureDepth == 0 {
		v.sv.assert(v.wf(st, val))
	}
	return val
}

func (v *Verifier) storeHeap(st *State, base string, root types.Type, path []int, x Val) {
	t := typeAt(root, path)
	if s, ok := structOf(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			v.storeHeap(st, base, root, append(append([]int(nil), path...), i), v.fieldOf(st, x, i))
		}
		return
	}
	srt := v.so.sort(t)
	key := fieldKey(root, path)
	h := v.heapGet(st, key, arr(srt))
	v.heapSet(st, key, arr(srt), "(store "+h+" "+base+" "+v.term(st, x).S+")")
}

func (v *Verifier) fieldOf(st *State, x Val, i int) Val {
	switch y := x.(type) {
	case StructVal:
		return y.F[i]
	case Term:
		s := y.T.Underlying().(*types.Struct)
		ss := v.so.structSort(y.T)
		return Term{"(" + ss.fields[i] + " " + y.S + ")", s.Field(i).Type()}
	}
	panic(unsupported(fmt.Sprintf("field of %T", x)))
}

func (v *Verifier) withField(st *State, x Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	sv := v.explode(st, x)
	n := StructVal{T: sv.T, F: append([]Val(nil), sv.F...)}
	n.F[path[0]] = v.withField(st, sv.F[path[0]], path[1:], nv)
	return n
}

func (v *Verifier) explode(st *State, x Val) StructVal {
	switch y := x.(type) {
	case StructVal:
		return y
	case Term:
		s, ok := structOf(y.T)
		if !ok {
			panic(unsupported("explode " + y.T.String()))
		}
		sv := StructVal{T: y.T}
		for i := 0; i < s.NumFields(); i++ {
			sv.F = append(sv.F, v.fieldOf(st, y, i))
		}
		return sv
	}
	panic(unsupported(fmt.Sprintf("explode %T", x)))
}

func (v *Verifier) zero(t types.Type) Val {
	if s, ok := structOf(t); ok {
		sv := StructVal{T: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.F = append(sv.F, v.zero(s.Field(i).Type()))
		}
		return sv
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if a.Len() > 64 {
			return Term{v.fresh("arr", v.so.sort(t)), t}
		}
		av := ArrayVal{T: t}
		for i := int64(0); i < a.Len(); i++ {
			av.E = append(av.E, v.zero(a.Elem()))
		}
		return av
	}
	if n, ok := v.so.isBV(t); ok {
		return Term{fmt.Sprintf("(_ bv0 %d)", n), t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Term{"false", t}
		case u.Info()&types.IsInteger != 0:
			return Term{"0", t}
		case u.Info()&types.IsString != 0:
			return Term{`""`, t}
		case u.Kind() == types.UntypedNil:
			return Term{"(mk-ifc 0 0)", t}
		case u.Info()&types.IsFloat != 0:
			v.so.sort(t)
			return Term{v.floatConst("0"), t}
		}
	case *types.Slice:
		return Term{"(mk-slc 0 0 0 0)", t}
	case *types.Interface:
		return Term{"(mk-ifc 0 0)", t}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Term{"0", t}
	}
	panic(unsupported("zero of " + t.String()))
}

func (v *Verifier) floatConst(s string) string {
	v.so.declSort("Flt")
	n := "fl_" + v.so.ident("flt:"+s)
	if _, ok := v.sv.byN[n]; !ok {
		v.sv.decl(n, "(declare-const "+n+" Flt)")
	}
	return n
}

// term converts a value to an SMT term; cells whose address is taken this way escape.
func (v *Verifier) term(st *State, x Val) Term {
	switch y := x.(type) {
	case Term:
		return y
	case StructVal:
		var fs []string
		for _, f := range y.F {
			fs = append(fs, v.term(st, f).S)
		}
		return Term{v.so.mkStruct(y.T, fs), y.T}
	case ArrayVal:
		t := v.fresh("arr", v.so.sort(y.T))
		for i, e := range y.E {
			v.sv.assert(fmt.Sprintf("(= (select %s %d) %s)", t, i, v.term(st, e).S))
		}
		return Term{t, y.T}
	case Iface:
		if y.Dyn == nil {
			return Term{"(mk-ifc 0 0)", y.T}
		}
		return Term{fmt.Sprintf("(mk-ifc %d %s)", v.so.typeID(y.Dyn), v.so.box(v.term(st, y.V))), y.T}
	case Closure:
		k := y.Fn.String()
		var bs []string
		for _, b := range y.Bind {
			bs = append(bs, v.term(st, b).S)
		}
		k += "(" + strings.Join(bs, ",") + ")"
		n := "fn_" + v.so.ident("fn:"+k)
		if _, ok := v.sv.byN[n]; !ok {
			v.sv.decl(n, "(declare-const "+n+" Int)")
			v.sv.fact("(< 0 " + n + ")")
			// distinct plain functions have distinct identities (used only for tracing)
			for o, c := range v.closureID {
				if len(c.Bind) == 0 && len(y.Bind) == 0 && c.Fn != y.Fn {
					v.sv.fact("(not (= " + n + " " + o + "))")
				}
			}
			cc := y
			v.closureID[n] = &cc
		}
		return Term{n, y.T}
	case Addr:
		pt := types.NewPointer(y.T)
		if y.Cell != "" {
			if len(y.Path) > 0 {
				panic(unsupported("interior pointer of a local escapes"))
			}
			return Term{v.escape(st, y.Cell), pt}
		}
		if y.Global != nil {
			n := "ga_" + v.so.ident("ga:"+y.Global.String())
			if _, ok := v.sv.byN[n]; !ok {
				v.sv.decl(n, "(declare-const "+n+" Int)")
				v.sv.fact("(and (< 0 " + n + ") (< " + n + " " + v.alloc0 + "))")
			}
			return Term{n, pt}
		}
		if y.IsElem || len(y.Path) > 0 {
			// Interior pointer: give it an opaque non-nil identity.  Memory reached through it is
			// not connected to its parent, so functions that read or write through such a pointer
			// after it escaped are rejected when it is dereferenced (see deref).
			n := "ip_" + v.so.ident("ip:"+typeKey(y.Root)+fmt.Sprint(y.Path)+y.Base+y.Idx)
			if _, ok := v.sv.byN[n]; !ok {
				v.sv.decl(n, "(declare-const "+n+" Int)")
				v.sv.fact("(and (< 0 " + n + ") (< " + n + " " + v.alloc0 + "))")
			}
			return Term{n, pt}
		}
		return Term{y.Base, pt}
	case CellSlice:
		loc := v.escape(st, y.Cell)
		return Term{fmt.Sprintf("(mk-slc %s 0 %d %d)", loc, y.N, y.N), y.T}
	case nil:
		panic(unsupported("undefined value"))
	}
	panic(unsupported(fmt.Sprintf("value %T has no term", x)))
}

func (v *Verifier) newLoc(st *State) string {
	l := v.name("loc", "Int", st.alloc)
	st.alloc = v.name("alloc", "Int", "(+ "+st.alloc+" 1)")
	v.noteMod(st, "alloc")
	return l
}

func (v *Verifier) escape(st *State, id string) string {
	c := st.cells[id]
	if c == nil {
		panic(unsupported("unknown cell " + id))
	}
	if c.Escaped != "" {
		return c.Escaped
	}
	v.noteMod(st, "e:"+id)
	loc := v.newLoc(st)
	n := *c
	n.Escaped = loc
	st.cells[id] = &n
	switch u := c.T.Underlying().(type) {
	case *types.Array:
		av, ok := c.V.(ArrayVal)
		srt := v.so.sort(u.Elem())
		key := "S|" + srt
		h := v.heapGet(st, key, arr(arr(srt)))
		a := v.fresh("A", arr(srt))
		if ok {
			e := v.so.eltFn(u.Elem())
			for i, x := range av.E {
				v.sv.assert(fmt.Sprintf("(= (%s %s 0 %d) %s)", e, a, i, v.term(st, x).S))
			}
		} else {
			a = v.term(st, c.V).S
		}
		v.heapSet(st, key, arr(arr(srt)), "(store "+h+" "+loc+" "+a+")")
	default:
		v.storeHeap(st, loc, c.T, nil, c.V)
	}
	return loc
}

func (v *Verifier) deref(st *State, p Val) Addr {
	switch y := p.(type) {
	case Addr:
		return y
	case Term:
		e, ok := ptrElem(y.T)
		if !ok {
			panic(unsupported("deref of " + y.T.String()))
		}
		if strings.HasPrefix(y.S, "ip_") {
			panic(unsupported("dereference of an escaped interior pointer"))
		}
		return Addr{Base: y.S, Root: e, T: e}
	}
	panic(unsupported(fmt.Sprintf("deref of %T", p)))
}

func (v *Verifier) load(st *State, p Val) Val {
	a := v.deref(st, p)
	if a.Cell != "" {
		c := st.cells[a.Cell]
		if c.Escaped == "" {
			x := c.V
			for _, i := range a.Path {
				x = v.elemOrField(st, x, i)
			}
			return x
		}
		if _, ok := c.T.Underlying().(*types.Array); ok {
			if len(a.Path) == 1 {
				ca := c.T.Underlying().(*types.Array)
				return v.loadElem(st, ca.Elem(), c.Escaped, "0", strconv.Itoa(a.Path[0]), nil)
			}
			panic(unsupported("load of escaped array"))
		}
		return v.loadHeap(st, c.Escaped, c.T, a.Path)
	}
	if a.Global != nil {
		x := v.loadGlobal(st, a.Global)
		for _, i := range a.Path {
			x = v.fieldOf(st, x, i)
		}
		return x
	}
	if a.IsElem {
		return v.loadElem(st, a.Root, a.Base, a.Off, a.Idx, a.Path)
	}
	return v.loadHeap(st, a.Base, a.Root, a.Path)
}

func (v *Verifier) elemOrField(st *State, x Val, i int) Val {
	if av, ok := x.(ArrayVal); ok {
		return av.E[i]
	}
	if t, ok := x.(Term); ok {
		if a, ok := t.T.Underlying().(*types.Array); ok {
			return Term{fmt.Sprintf("(select %s %d)", t.S, i), a.Elem()}
		}
	}
	return v.fieldOf(st, x, i)
}

func (v *Verifier) loadElem(st *State, elem types.Type, base, off, idx string, path []int) Val {
	srt := v.so.sort(elem)
	h := v.heapGet(st, "S|"+srt, arr(arr(srt)))
	e := v.so.eltFn(elem)
	t := Term{v.name("el", srt, fmt.Sprintf("(%s (select %s %s) %s %s)", e, h, base, off, idx)), elem}
	if v.pureDepth == 0 {
		v.sv.assert(v.wf(st, t))
	}
	var x Val = t
	for _, i := range path {
		x = v.fieldOf(st, x, i)
	}
	return x
}

func (v *Verifier) loadGlobal(st *State, g *ssa.Global) Val {
	t, _ := ptrElem(g.Type())
	key := "GV|" + g.String()
	if h, ok := st.heap[key]; ok {
		return Term{h, t}
	}
	n := "gv_" + v.so.ident(key)
	if _, ok := v.sv.byN[n]; !ok {
		v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, v.so.sort(t)))
		es := v.entry
		if es == nil {
			es = st
		}
		v.sv.fact(v.wf(es, Term{n, t}))
		v.globalFacts(g, n, t)
	}
	st.heap[key] = n
	return Term{n, t}
}

func (v *Verifier) store(st *State, p Val, x Val) {
	a := v.deref(st, p)
	if a.Cell != "" {
		c := st.cells[a.Cell]
		if c.Escaped == "" {
			n := *c
			n.V = v.withPath(st, c.V, a.Path, x)
			st.cells[a.Cell] = &n
			v.noteMod(st, "c:"+a.Cell)
			return
		}
		if ca, ok := c.T.Underlying().(*types.Array); ok && len(a.Path) == 1 {
			v.storeElem(st, ca.Elem(), c.Escaped, "0", strconv.Itoa(a.Path[0]), nil, x)
			return
		}
		v.storeHeap(st, c.Escaped, c.T, a.Path, x)
		return
	}
	if a.Global != nil {
		if len(a.Path) > 0 {
			panic(unsupported("store to field of global"))
		}
		t := v.term(st, x)
		v.loadGlobal(st, a.Global)
		st.heap["GV|"+a.Global.String()] = t.S
		v.noteMod(st, "g:"+a.Global.String()+"|"+v.so.sort(t.T))
		return
	}
	if a.IsElem {
		v.storeElem(st, a.Root, a.Base, a.Off, a.Idx, a.Path, x)
		return
	}
	v.storeHeap(st, a.Base, a.Root, a.Path, x)
}

func (v *Verifier) withPath(st *State, x Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	if av, ok := x.(ArrayVal); ok {
		n := ArrayVal{T: av.T, E: append([]Val(nil), av.E...)}
		n.E[path[0]] = v.withPath(st, av.E[path[0]], path[1:], nv)
		return n
	}
	sv := v.explode(st, x)
	n := StructVal{T: sv.T, F: append([]Val(nil), sv.F...)}
	n.F[path[0]] = v.withPath(st, sv.F[path[0]], path[1:], nv)
	return n
}

func (v *Verifier) storeElem(st *State, elem types.Type, base, off, idx string, path []int, x Val) {
	srt := v.so.sort(elem)
	key := "S|" + srt
	h := v.heapGet(st, key, arr(arr(srt)))
	nv := x
	if len(path) > 0 {
		old := v.loadElem(st, elem, base, off, idx, nil)
		nv = v.withPath(st, old, path, x)
	}
	pos := idx
	if off != "0" {
		pos = "(+ " + off + " " + idx + ")"
	}
	v.heapSet(st, key, arr(arr(srt)), fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", h, base, h, base, pos, v.term(st, nv).S))
}

// ---- values of SSA operands -----------------------------------------------------------------

func (v *Verifier) val(st *State, x ssa.Value) Val {
	switch y := x.(type) {
	case *ssa.Const:
		return v.constVal(y)
	case *ssa.Global:
		t, _ := ptrElem(y.Type())
		return Addr{Global: y, Root: t, T: t}
	case *ssa.Function:
		return Closure{Fn: y, T: y.Type()}
	case *ssa.Builtin:
		return y
	}
	r, ok := st.frame.env[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s = %s in %s", x.Name(), x, st.frame.fn)))
	}
	return r
}

func (v *Verifier) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return v.zero(t)
	}
	return v.constTerm(c.Value, t)
}

func (v *Verifier) constTerm(cv constant.Value, t types.Type) Term {
	if n, ok := v.so.isBV(t); ok {
		i := constant.ToInt(cv)
		if constant.Sign(i) < 0 {
			i = constant.BinaryOp(i, token.ADD, constant.Shift(constant.MakeInt64(1), token.SHL, uint(n)))
		}
		return Term{fmt.Sprintf("(_ bv%s %d)", i.ExactString(), n), t}
	}
	switch {
	case isString(t):
		if cv.Kind() == constant.String {
			return Term{smtStr(constant.StringVal(cv)), t}
		}
	case isInt(t):
		return Term{smtInt(constant.ToInt(cv).ExactString()), t}
	case isFloat(t):
		return Term{v.floatConst(cv.ExactString()), t}
	}
	if cv.Kind() == constant.Bool {
		if constant.BoolVal(cv) {
			return Term{"true", t}
		}
		return Term{"false", t}
	}
	panic(unsupported("constant " + cv.String() + " of " + t.String()))
}

// ---- driver ---------------------------------------------------------------------------------

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// reachesLoop reports whether a loop header can be entered from the block.
func (p *Program) reachesLoop(specs *Specs, fn *ssa.Function, b *ssa.BasicBlock) bool {
	lps := p.loopsOf(fn)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.reachCache == nil {
		p.reachCache = map[*ssa.BasicBlock]bool{}
	}
	if r, ok := p.reachCache[b]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if lps[b] != nil {
			return true
		}
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && p.callLoops(specs, fn, c.Common()) {
				return true
			}
		}
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	r := dfs(b)
	p.reachCache[b] = r
	return r
}

// callLoops reports whether inlining a call can enter a loop.
func (p *Program) callLoops(specs *Specs, fn *ssa.Function, c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return false
	}
	if g := c.StaticCallee(); g != nil {
		return p.hasLoops(specs, g, map[*ssa.Function]bool{})
	}
	for _, a := range fn.AnonFuncs {
		if p.hasLoops(specs, a, map[*ssa.Function]bool{}) {
			return true
		}
	}
	return false
}

func (p *Program) hasLoops(specs *Specs, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	if ct := specs.lookup(g); ct != nil && !ct.Inline {
		return false
	}
	if len(g.Blocks) == 0 || (!p.isOwn(g) && !p.inlineStd(g)) {
		return false
	}
	if len(findLoops(g)) > 0 {
		return true
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() {
				continue
			}
			if h := c.Common().StaticCallee(); h != nil && p.hasLoops(specs, h, seen) {
				return true
			}
		}
	}
	for _, a := range g.AnonFuncs {
		if p.hasLoops(specs, a, seen) {
			return true
		}
	}
	return false
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	out := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return out
}

func (v *Verifier) enterBlock(st *State, b, from *ssa.BasicBlock) {
	if v.stop {
		return
	}
	f := st.frame
	if v.infer && f.caller == nil && v.cuts != nil && !v.prog.reachesLoop(v.specs, f.fn, b) {
		return // nothing left on this path that inference looks at
	}
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].l.body[b] {
		f.loops = f.loops[:len(f.loops)-1]
	}
	lps := v.prog.loopsOf(f.fn)
	// simultaneous phi assignment
	phis := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				phis[p] = v.val(st, p.Edges[i])
				break
			}
		}
	}
	l := lps[b]
	if l != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].l == l {
			v.loopBack(st, f.loops[len(f.loops)-1], phis)
			return
		}
		if v.loopEnter(st, l, phis, b) {
			return
		}
	}
	for p, x := range phis {
		f.env[p] = x
	}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	v.run(st, b, i)
}

func (v *Verifier) pos(p token.Pos) string {
	ps := v.prog.fset.Position(p)
	if !ps.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, v.opt.Repo+"/"), ps.Line)
}

// fork explores both outcomes of a condition.
func (v *Verifier) fork(st *State, cond string, yes, no func(*State), label string) {
	if cond == "true" {
		yes(st)
		return
	}
	if cond == "false" {
		no(st)
		return
	}
	v.paths++
	if v.paths > v.opt.MaxPaths {
		panic(unsupported(fmt.Sprintf("more than %d paths", v.opt.MaxPaths)))
	}
	s1 := st.clone()
	v.sv.push()
	v.sv.assert(cond)
	if v.sv.feasible() {
		s1.trace = append(s1.trace, label)
		yes(s1)
	}
	v.sv.pop()
	v.sv.push()
	v.sv.assert(not(cond))
	if v.sv.feasible() {
		st.trace = append(st.trace, "!"+label)
		no(st)
	}
	v.sv.pop()
}

func (v *Verifier) run(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if v.stop {
			return
		}
		f := st.frame
		switch x := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			v.enterBlock(st, b.Succs[0], b)
			return
		case *ssa.If:
			c := v.term(st, v.val(st, x.Cond)).S
			lbl := v.pos(x.Cond.Pos())
			v.fork(st, c,
				func(s *State) { v.enterBlock(s, b.Succs[0], b) },
				func(s *State) { v.enterBlock(s, b.Succs[1], b) }, lbl)
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, v.val(st, r))
			}
			if f.caller == nil {
				v.lastFrame = f
			}
			st.frame = f.caller
			ret := f.onRet
			if ret == nil {
				panic("no continuation")
			}
			ret(st, vals)
			return
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				bb, ii := b, i
				v.doCall(st, d.call, d.fv, d.args, d.ins, nil, func(s *State, _ Val) { v.run(s, bb, ii) })
				return
			}
		case *ssa.Panic:
			v.panics(st, "explicit panic", x.Pos())
			return
		case *ssa.Defer:
			fv, args := v.callOperands(st, &x.Call)
			f.defers = append(f.defers, deferRec{&x.Call, args, fv, x})
		case *ssa.Go, *ssa.Select, *ssa.Send:
			panic(unsupported(fmt.Sprintf("%T", x)))
		case *ssa.Store:
			addr := v.val(st, x.Addr)
			v.nilCheck(st, addr, x.Pos())
			v.store(st, addr, v.val(st, x.Val))
		case *ssa.MapUpdate:
			v.mapUpdate(st, v.val(st, x.Map), v.val(st, x.Key), v.val(st, x.Value), x.Pos())
		case *ssa.Call:
			fv, args := v.callOperands(st, &x.Call)
			bb, ii := b, i
			v.doCall(st, &x.Call, fv, args, x, x.Type(), func(s *State, r Val) {
				if r != nil {
					s.frame.env[x] = r
				}
				v.run(s, bb, ii+1)
			})
			return
		case *ssa.TypeAssert:
			bb, ii := b, i
			v.typeAssert(st, x, func(s *State, r Val) {
				s.frame.env[x] = r
				v.run(s, bb, ii+1)
			})
			return
		case ssa.Value:
			f.env[x] = v.eval(st, x)
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", x)))
		}
	}
}

// check generates an obligation that something cannot go wrong, and continues assuming it did not.
func (v *Verifier) safe(st *State, cond, what string, p token.Pos) {
	if cond == "true" {
		return
	}
	if v.c != nil && v.c.NoPanic && !v.infer {
		v.oblige(st, "nopanic", what, cond, nil, p)
	}
	v.sv.assert(cond)
}

func (v *Verifier) panics(st *State, what string, p token.Pos) {
	if v.c != nil && v.c.NoPanic && !v.infer {
		v.oblige(st, "nopanic", what, "false", nil, p)
	}
}

func (v *Verifier) nilCheck(st *State, p Val, pos token.Pos) {
	if t, ok := p.(Term); ok {
		v.safe(st, "(not (= "+t.S+" 0))", "nil dereference", pos)
	}
	if a, ok := p.(Addr); ok && a.Cell == "" && a.Global == nil && !a.IsElem {
		v.safe(st, "(not (= "+a.Base+" 0))", "nil dereference", pos)
	}
}

func (v *Verifier) oblige(st *State, kind, clause, goal string, props []string, p token.Pos) {
	goals := splitGoal(goal)
	all := false
	if len(goals) > 1 {
		all = v.sv.proveMS(goal, true, min(v.opt.InferMS, 400)).Status == "proved"
	}
	for gi, g := range goals {
		r := proofResult{Status: "proved", By: "z3-new (incremental)"}
		if !all {
			r = v.sv.prove(g, false)
		}
		name := v.c.name() + "#" + kind
		vc := &VC{Name: name, Clause: clause, Props: props, Status: r.Status, By: r.By, MS: r.MS, Model: r.Model, Detail: r.Detail, Pos: v.pos(p)}
		if len(goals) > 1 {
			vc.Clause += fmt.Sprintf(" [conjunct %d/%d]", gi+1, len(goals))
		}
		if r.Status != "proved" {
			vc.Path = strings.Join(st.trace, " ")
			if v.nfail++; v.opt.MaxFail > 0 && v.nfail >= v.opt.MaxFail {
				v.stop = true // enough obligations failed; the rest is not needed for the verdict
			}
			if v.opt.Verbose {
				fmt.Printf("    FAIL %s %s (%s) path=%s\n      goal %s\n", name, vc.Clause, r.Status+" "+r.Detail, vc.Path, trunc(g, 600))
			}
		}
		v.results = append(v.results, vc)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func splitGoal(g string) []string {
	if strings.HasPrefix(g, "(and ") {
		var out []string
		for _, k := range sexprKids(g) {
			out = append(out, splitGoal(k)...)
		}
		return out
	}
	if strings.HasPrefix(g, "(=> ") {
		k := sexprKids(g)
		if len(k) == 2 && strings.HasPrefix(k[1], "(and ") {
			var out []string
			for _, c := range splitGoal(k[1]) {
				out = append(out, "(=> "+k[0]+" "+c+")")
			}
			return out
		}
	}
	return []string{g}
}

func sexprKids(g string) []string {
	i := strings.IndexByte(g, ' ')
	body := g[i+1 : len(g)-1]
	var out []string
	d, last := 0, -1
	inStr := false
	for j := 0; j < len(body); j++ {
		c := body[j]
		if inStr {
			if c == '"' {
				inStr = false
				if d == 0 && (j+1 == len(body) || body[j+1] == ' ') {
					out = append(out, body[last:j+1])
					last = -1
				}
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
			if last < 0 {
				last = j
			}
		case '(':
			if d == 0 && last < 0 {
				last = j
			}
			d++
		case ')':
			d--
			if d == 0 {
				out = append(out, body[last:j+1])
				last = -1
			}
		case ' ':
			if d == 0 && last >= 0 {
				out = append(out, body[last:j])
				last = -1
			}
		default:
			if d == 0 && last < 0 {
				last = j
			}
		}
	}
	if last >= 0 {
		out = append(out, body[last:])
	}
	return out
}

func (c *Contract) name() string {
	p := c.Pkg
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p + "." + c.Key
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
