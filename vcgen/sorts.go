package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Term is an SMT term together with the Go type it encodes.
type Term struct {
	S string
	T types.Type
}

// Sorts maps Go types to SMT sorts.  It is shared by everything in one function verification.
type Sorts struct {
	sv       *Solver
	structs  map[string]*structSort
	typeIDs  map[string]int
	idTypes  []types.Type
	ifaces   map[string]types.Type // interface name -> type
	boxes    map[string]bool
	bvNames  map[string]bool
	bvBasic  map[string]bool // basic types taken as bit vectors in this function (opt bv)
	declared map[string]bool
	nameIDs  map[string]string
}

type structSort struct {
	name   string
	st     *types.Struct
	fields []string // selector names
}

func newSorts(sv *Solver, bv map[string]bool) *Sorts {
	s := &Sorts{sv: sv, structs: map[string]*structSort{}, typeIDs: map[string]int{}, ifaces: map[string]types.Type{},
		boxes: map[string]bool{}, bvNames: bv, declared: map[string]bool{}, nameIDs: map[string]string{}}
	sv.decl("", "(declare-datatypes ((Slc 0)) (((mk-slc (s-loc Int) (s-off Int) (s-len Int) (s-cap Int)))))")
	sv.decl("", "(declare-datatypes ((Ifc 0)) (((mk-ifc (i-typ Int) (i-val Int)))))")
	sv.decl("go_replace_all", "(declare-fun go_replace_all (String String String) String)")
	sv.decl("rune_str", "(declare-fun rune_str (Int) String)")
	sv.decl("", "(assert (forall ((r Int)) (! (and (<= 1 (str.len (rune_str r))) (<= (str.len (rune_str r)) 4)) :pattern ((rune_str r)))))")
	sv.decl("rune_at", "(declare-fun rune_at (String) Int)")
	sv.decl("rune_w", "(declare-fun rune_w (String) Int)")
	return s
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// ident returns a short SMT-safe identifier for any string.
func (s *Sorts) ident(x string) string {
	if id, ok := s.nameIDs[x]; ok {
		return id
	}
	var b strings.Builder
	short := x
	if i := strings.LastIndex(short, "/"); i >= 0 && !strings.ContainsAny(short[i:], "(){}") {
		short = short[i+1:]
	}
	for _, r := range short {
		if r < 128 && (r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	id := b.String()
	if len(id) > 40 {
		id = id[:40]
	}
	id = fmt.Sprintf("%s_%d", id, len(s.nameIDs))
	s.nameIDs[x] = id
	return id
}

func (s *Sorts) isBV(t types.Type) (int, bool) {
	if b, ok := t.(*types.Basic); ok && s.bvBasic[b.Name()] {
		return intBits(b), true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return 0, false
	}
	if !s.bvNames[typeKey(n)] {
		return 0, false
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return intBits(b), true
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	default:
		return 64
	}
}

func isUnsigned(b *types.Basic) bool { return b.Info()&types.IsUnsigned != 0 }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// ghostMap is the type of a ghost total map (spec only).
type ghostMap struct{ k, v types.Type }

func (g *ghostMap) Underlying() types.Type { return g }
func (g *ghostMap) String() string         { return "gmap[" + g.k.String() + "]" + g.v.String() }

func (s *Sorts) sort(t types.Type) string {
	if g, ok := t.(*ghostMap); ok {
		return "(Array " + s.sort(g.k) + " " + s.sort(g.v) + ")"
	}
	if n, ok := s.isBV(t); ok {
		return fmt.Sprintf("(_ BitVec %d)", n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsFloat != 0:
			s.declSort("Flt")
			return "Flt"
		case u.Info()&types.IsComplex != 0:
			s.declSort("Cpx")
			return "Cpx"
		case u.Kind() == types.UntypedNil:
			return "Ifc"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slc"
	case *types.Interface:
		return "Ifc"
	case *types.Struct:
		return s.structSort(t).name
	case *types.Array:
		return "(Array Int " + s.sort(u.Elem()) + ")"
	}
	panic(unsupported("sort of type " + t.String()))
}

func (s *Sorts) declSort(n string) {
	if !s.declared[n] {
		s.declared[n] = true
		s.sv.decl(n, "(declare-sort "+n+" 0)")
	}
}

func (s *Sorts) structSort(t types.Type) *structSort {
	k := typeKey(t)
	if ss, ok := s.structs[k]; ok {
		return ss
	}
	st := t.Underlying().(*types.Struct)
	id := s.ident(k)
	ss := &structSort{name: "S_" + id, st: st}
	var parts []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sel := fmt.Sprintf("f_%s_%d", id, i)
		ss.fields = append(ss.fields, sel)
		parts = append(parts, fmt.Sprintf("(%s %s)", sel, s.sort(f.Type())))
	}
	s.structs[k] = ss
	s.sv.decl(ss.name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", ss.name, id, strings.Join(parts, " ")), ss.fields...)
	s.sv.alias("mk_"+id, ss.name)
	return ss
}

func (s *Sorts) mkStruct(t types.Type, fields []string) string {
	ss := s.structSort(t)
	c := "mk_" + strings.TrimPrefix(ss.name, "S_")
	if len(fields) == 0 {
		return c
	}
	return "(" + c + " " + strings.Join(fields, " ") + ")"
}

func (s *Sorts) typeID(t types.Type) int {
	k := typeKey(types.Unalias(t))
	if id, ok := s.typeIDs[k]; ok {
		return id
	}
	id := len(s.typeIDs) + 1
	s.typeIDs[k] = id
	s.idTypes = append(s.idTypes, t)
	for n, it := range s.ifaces {
		s.implFact(n, it, id, t)
	}
	return id
}

func (s *Sorts) implPred(it types.Type) string {
	n := "impl_" + s.ident(typeKey(it))
	for k, o := range s.ifaces { // the same interface written differently
		if types.Identical(o, it) {
			n = k
		}
	}
	if _, ok := s.ifaces[n]; !ok {
		s.ifaces[n] = it
		s.sv.decl(n, "(declare-fun "+n+" (Int) Bool)")
		s.sv.fact("(not (" + n + " 0))")
		for i, t := range s.idTypes {
			s.implFact(n, it, i+1, t)
		}
	}
	return n
}

func (s *Sorts) implFact(n string, it types.Type, id int, t types.Type) {
	iface := it.Underlying().(*types.Interface)
	if types.Implements(t, iface) {
		s.sv.fact(fmt.Sprintf("(%s %d)", n, id))
	} else {
		s.sv.fact(fmt.Sprintf("(not (%s %d))", n, id))
	}
}

// box converts a term to the payload of an interface value.
func (s *Sorts) box(t Term) string {
	srt := s.sort(t.T)
	if srt == "Int" {
		return t.S
	}
	n := s.boxFn(srt)
	return "(box_" + n + " " + t.S + ")"
}

func (s *Sorts) boxFn(srt string) string {
	n := s.ident("box:" + srt)
	if !s.boxes[n] {
		s.boxes[n] = true
		s.sv.decl("box_"+n, fmt.Sprintf("(declare-fun box_%s (%s) Int)", n, srt))
		s.sv.decl("unbox_"+n, fmt.Sprintf("(declare-fun unbox_%s (Int) %s)", n, srt))
		s.sv.fact(fmt.Sprintf("(forall ((x %s)) (! (= (unbox_%s (box_%s x)) x) :pattern ((box_%s x))))", srt, n, n, n))
	}
	return n
}

// unbox extracts a payload of type t from an interface term; the second result is a fact that
// holds when the dynamic type is t.
func (s *Sorts) unbox(ifc string, t types.Type) (string, string) {
	srt := s.sort(t)
	if srt == "Int" {
		return "(i-val " + ifc + ")", "true"
	}
	n := s.boxFn(srt)
	v := "(unbox_" + n + " (i-val " + ifc + "))"
	return v, "(= (box_" + n + " " + v + ") (i-val " + ifc + "))"
}

func (s *Sorts) eltFn(elem types.Type) string {
	srt := s.sort(elem)
	n := "elt_" + s.ident("elt:"+srt)
	if !s.declared[n] {
		s.declared[n] = true
		s.sv.decl(n, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) %s)", n, srt, srt))
		s.sv.fact(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (i Int)) (! (= (%s a o i) (select a (+ o i))) :pattern ((%s a o i))))", srt, n, n))
	}
	return n
}

type unsupported string

func smtStr(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(v); i++ {
		c := v[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(n string) string {
	if strings.HasPrefix(n, "-") {
		return "(- " + n[1:] + ")"
	}
	return n
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	switch {
	case x == "true":
		return "false"
	case x == "false":
		return "true"
	case strings.HasPrefix(x, "(not ") && balanced(x[5:len(x)-1]):
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func balanced(x string) bool {
	d := 0
	inStr := false
	for i := 0; i < len(x); i++ {
		switch {
		case x[i] == '"':
			inStr = !inStr
		case inStr:
		case x[i] == '(':
			d++
		case x[i] == ')':
			d--
			if d < 0 {
				return false
			}
		case x[i] == ' ' && d == 0:
			return false
		}
	}
	return d == 0
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	if a == b {
		return a
	}
	return "(ite " + c + " " + a + " " + b + ")"
}
