package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specEnv evaluates contract expressions over a symbolic state.
type specEnv struct {
	v        *Verifier
	st       *State
	old      *State
	pre      *State
	names    map[string]Val
	pkg      string
	assuming bool
	file     string
	line     int
}

func (e *specEnv) fail(f string, a ...any) {
	panic(unsupported("specification: " + fmt.Sprintf(f, a...)))
}

func (e *specEnv) with(names map[string]Val) *specEnv {
	n := *e
	n.names = names
	return &n
}

func (e *specEnv) bind(k string, x Val) *specEnv {
	m := make(map[string]Val, len(e.names)+1)
	for a, b := range e.names {
		m[a] = b
	}
	m[k] = x
	return e.with(m)
}

func (e *specEnv) boolean(x *Expr) string {
	t := e.term(x)
	return t.S
}

func (e *specEnv) term(x *Expr) Term { return e.v.term(e.st, e.eval(x)) }

var untypedInt = types.Typ[types.UntypedInt]

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *specEnv) eval(x *Expr) Val {
	v := e.v
	bt := types.Typ[types.Bool]
	switch x.Op {
	case "int":
		c := constant.MakeFromLiteral(x.Val, token.INT, 0)
		return Term{smtInt(c.ExactString()), untypedInt}
	case "float":
		c := constant.MakeFromLiteral(x.Val, token.FLOAT, 0)
		return Term{v.floatConst(c.ExactString()), types.Typ[types.Float64]}
	case "char":
		c := constant.MakeFromLiteral(x.Val, token.CHAR, 0)
		return Term{c.ExactString(), untypedInt}
	case "string":
		s, err := strconv.Unquote(x.Val)
		if err != nil {
			e.fail("bad string %s", x.Val)
		}
		return Term{smtStr(s), types.Typ[types.String]}
	case "ident":
		return e.ident(x.Val)
	case "un":
		return e.unary(x)
	case "bin":
		return e.binary(x)
	case "cond":
		c := e.boolean(x.Kids[0])
		a, b := e.term(x.Kids[1]), e.term(x.Kids[2])
		a, b = e.unify(a, b)
		r := ite(c, a.S, b.S)
		if v.pureDepth > 0 && a.T != untypedInt && !strings.Contains(r, "q!") && strings.HasPrefix(r, "(ite") {
			r = v.named("cd", v.so.sort(a.T), r)
		} else if v.pureDepth > 0 && a.T == untypedInt && !strings.Contains(r, "q!") && strings.HasPrefix(r, "(ite") {
			r = v.named("cd", "Int", r)
		}
		return Term{r, a.T}
	case "let":
		y := e.eval(x.Kids[0])
		return e.bind(x.Val, y).eval(x.Kids[1])
	case "forall", "exists":
		v.pureDepth++
		defer func() { v.pureDepth-- }()
		n := e
		var ds []string
		for _, vd := range x.Vars {
			t := v.prog.specType(e.pkg, vd.Type)
			v.n++
			q := fmt.Sprintf("q!%s%d", sanitize(vd.Name), v.n)
			ds = append(ds, "("+q+" "+v.so.sort(t)+")")
			n = n.bind(vd.Name, Term{q, t})
		}
		body := n.boolean(x.Kids[0])
		return Term{"(" + x.Op + " (" + strings.Join(ds, " ") + ") " + body + ")", bt}
	case "sel":
		if id := x.Kids[0]; id.Op == "ident" {
			if _, ok := e.names[id.Val]; !ok {
				if p := v.prog.pkgByName(e.pkg, id.Val); p != nil {
					return e.pkgMember(p, x.Val)
				}
			}
		}
		return e.sel(e.eval(x.Kids[0]), x.Val)
	case "index":
		return e.index(e.eval(x.Kids[0]), e.eval(x.Kids[1]))
	case "slice":
		s := e.term(x.Kids[0])
		lo, hi := "0", ""
		if x.Kids[1] != nil {
			lo = e.term(x.Kids[1]).S
		}
		if x.Kids[2] != nil {
			hi = e.term(x.Kids[2]).S
		}
		if isString(s.T) {
			if hi == "" {
				hi = "(str.len " + s.S + ")"
			}
			n := "(- " + hi + " " + lo + ")"
			if lo == "0" {
				n = hi
			}
			return Term{"(str.substr " + s.S + " " + lo + " " + n + ")", s.T}
		}
		if hi == "" {
			hi = "(s-len " + s.S + ")"
		}
		return v.subslice(s.S, lo, hi, "(s-cap "+s.S+")", s.T)
	case "assert":
		y := e.term(x.Kids[0])
		t := v.prog.specType(e.pkg, x.Val)
		if isIface(t) {
			return Term{y.S, t}
		}
		s, _ := v.so.unbox(y.S, t)
		return Term{s, t}
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s", x.Op)
	return nil
}

func (e *specEnv) ident(n string) Val {
	v := e.v
	if x, ok := e.names[n]; ok {
		return x
	}
	switch n {
	case "true", "false":
		return Term{n, types.Typ[types.Bool]}
	case "nil":
		return Term{"(mk-ifc 0 0)", types.Typ[types.UntypedNil]}
	case "alloc":
		return Term{e.st.alloc, types.Typ[types.Int]}
	}
	for _, g := range v.specs.Ghosts {
		if g.name == n {
			return v.ghostGet(e.st, n)
		}
	}
	if m, ok := v.specs.Macros[n]; ok && len(m.Params) == 0 {
		return e.macro(m, nil)
	}
	if fr := e.st.frame; fr != nil || v.lastFrame != nil { // a captured local variable, by address
		if fr == nil {
			fr = v.lastFrame
		}
		for x, val := range fr.env {
			if a, ok := x.(*ssa.Alloc); ok && a.Comment == n {
				return val
			}
		}
	}
	p := v.prog.pkg(e.pkg)
	if p == nil {
		e.fail("unknown name %s (no package %q)", n, e.pkg)
	}
	return e.pkgMember(p, n)
}

func (e *specEnv) pkgMember(p *ssa.Package, n string) Val {
	v := e.v
	switch m := p.Members[n].(type) {
	case *ssa.NamedConst:
		if b, ok := m.Value.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Info()&types.IsInteger != 0 {
			return Term{smtInt(constant.ToInt(m.Value.Value).ExactString()), untypedInt}
		}
		return v.constVal(m.Value)
	case *ssa.Global:
		return v.loadGlobal(e.st, m)
	case *ssa.Function:
		return Closure{Fn: m, T: m.Type()}
	}
	e.fail("unknown name %s in %s", n, p.Pkg.Path())
	return nil
}

func (e *specEnv) unary(x *Expr) Val {
	switch x.Val {
	case "!":
		return Term{not(e.boolean(x.Kids[0])), types.Typ[types.Bool]}
	case "-":
		t := e.term(x.Kids[0])
		if n, err := strconv.ParseInt(t.S, 10, 64); err == nil {
			return Term{smtInt(strconv.FormatInt(-n, 10)), t.T}
		}
		return Term{"(- " + t.S + ")", t.T}
	case "^":
		t := e.term(x.Kids[0])
		if _, ok := e.v.so.isBV(t.T); ok {
			return Term{"(bvnot " + t.S + ")", t.T}
		}
	case "*":
		return e.v.load(e.st, e.eval(x.Kids[0]))
	}
	e.fail("unary %s", x.Val)
	return nil
}

// unify gives untyped operands the type of the other side.
func (e *specEnv) unify(a, b Term) (Term, Term) {
	conv := func(x Term, t types.Type) Term {
		if x.T == untypedInt {
			if n, ok := e.v.so.isBV(t); ok {
				if i, err := strconv.ParseInt(strings.Trim(strings.ReplaceAll(x.S, "(- ", "-"), ")"), 10, 64); err == nil {
					return e.v.constTerm(constant.MakeInt64(i), t)
				}
				return Term{fmt.Sprintf("((_ int2bv %d) %s)", n, x.S), t}
			}
			if isInt(t) {
				return Term{x.S, t}
			}
		}
		if b, ok := x.T.(*types.Basic); ok && b.Kind() == types.UntypedNil && t != x.T {
			return e.v.term(e.st, e.v.zero(t))
		}
		if isIface(t) && !isIface(x.T) && x.T != untypedInt {
			return e.v.term(e.st, Iface{Dyn: x.T, V: x, T: t})
		}
		return x
	}
	return conv(a, b.T), conv(b, a.T)
}

func (e *specEnv) binary(x *Expr) Val {
	v := e.v
	bt := types.Typ[types.Bool]
	switch x.Val {
	case "==>":
		return Term{imp(e.boolean(x.Kids[0]), e.boolean(x.Kids[1])), bt}
	case "<==>":
		return Term{eq(e.boolean(x.Kids[0]), e.boolean(x.Kids[1])), bt}
	case "&&":
		return Term{and(e.boolean(x.Kids[0]), e.boolean(x.Kids[1])), bt}
	case "||":
		return Term{or(e.boolean(x.Kids[0]), e.boolean(x.Kids[1])), bt}
	}
	a, b := e.eval(x.Kids[0]), e.eval(x.Kids[1])
	if x.Val == "==" || x.Val == "!=" {
		var r string
		ta, aok := a.(Term)
		tb, bok := b.(Term)
		if aok && bok {
			if isNilConst(ta) || isNilConst(tb) {
				r = v.equal(e.st, a, b)
			} else {
				ta, tb = e.unify(ta, tb)
				r = eq(ta.S, tb.S)
			}
		} else {
			if isNilConst(a) || isNilConst(b) {
				r = v.equal(e.st, a, b)
			} else {
				ta, tb = v.term(e.st, a), v.term(e.st, b)
				ta, tb = e.unify(ta, tb)
				r = eq(ta.S, tb.S)
			}
		}
		if x.Val == "!=" {
			r = not(r)
		}
		return Term{r, bt}
	}
	ta, tb := v.term(e.st, a), v.term(e.st, b)
	ta, tb = e.unify(ta, tb)
	if _, ok := v.so.isBV(ta.T); ok {
		op := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT, "+": token.ADD, "-": token.SUB, "<<": token.SHL, ">>": token.SHR, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[x.Val]
		t := ta.T
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			t = bt
		}
		return v.bvop(e.st, op, ta, tb, t)
	}
	t := ta.T
	if t == untypedInt {
		t = tb.T
	}
	if isString(t) {
		switch x.Val {
		case "+":
			return Term{"(str.++ " + ta.S + " " + tb.S + ")", t}
		case "<":
			return Term{"(str.< " + ta.S + " " + tb.S + ")", bt}
		case "<=":
			return Term{"(str.<= " + ta.S + " " + tb.S + ")", bt}
		case ">":
			return Term{"(str.< " + tb.S + " " + ta.S + ")", bt}
		case ">=":
			return Term{"(str.<= " + tb.S + " " + ta.S + ")", bt}
		}
	}
	if isFloat(ta.T) {
		rt := t
		switch x.Val {
		case "<", "<=", ">", ">=":
			rt = bt
		}
		return v.floatOp(x.Val, rt, ta, tb)
	}
	switch x.Val {
	case "+", "-", "*":
		return Term{"(" + x.Val + " " + ta.S + " " + tb.S + ")", t}
	case "/":
		return Term{"(div " + ta.S + " " + tb.S + ")", t}
	case "%":
		return Term{"(mod " + ta.S + " " + tb.S + ")", t}
	case "<", "<=", ">", ">=":
		return Term{"(" + x.Val + " " + ta.S + " " + tb.S + ")", bt}
	}
	switch x.Val {
	case "&", "|", "^", "&^":
		return v.bitsOfInt(x.Val, t, ta, tb)
	}
	e.fail("operator %s on %s", x.Val, ta.T)
	return nil
}

func (e *specEnv) sel(b Val, n string) Val {
	v := e.v
	if tp, ok := b.(Tuple); ok {
		i, _ := strconv.Atoi(n)
		return tp[i]
	}
	var t types.Type
	switch y := b.(type) {
	case Addr:
		t = types.NewPointer(y.T)
	case StructVal:
		t = y.T
	case Term:
		t = y.T
	case Iface:
		t = y.Dyn
	default:
		e.fail("selector .%s on %T", n, b)
	}
	p := v.prog.pkg(e.pkg)
	var tp *types.Package
	if p != nil {
		tp = p.Pkg
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, tp, n)
	if obj == nil { // unexported field of another package
		if nt, ok := derefNamed(t); ok && nt.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, nt.Obj().Pkg(), n)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		e.fail("no field %s in %s", n, t)
	}
	cur := b
	for _, i := range idx {
		cur = e.field(cur, i)
	}
	return cur
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if e, ok := ptrElem(t); ok {
		t = e
	}
	n, ok := types.Unalias(t).(*types.Named)
	return n, ok
}

func (e *specEnv) field(b Val, i int) Val {
	v := e.v
	switch y := b.(type) {
	case Addr:
		st, _ := structOf(y.T)
		y.Path = append(append([]int(nil), y.Path...), i)
		y.T = st.Field(i).Type()
		return v.load(e.st, y)
	case StructVal:
		return y.F[i]
	case Iface:
		return e.field(y.V, i)
	case Term:
		if el, ok := ptrElem(y.T); ok {
			return v.loadHeap(e.st, y.S, el, []int{i})
		}
		return v.fieldOf(e.st, y, i)
	}
	e.fail("field of %T", b)
	return nil
}

func (e *specEnv) index(b, i Val) Val {
	v := e.v
	if cs, ok := b.(CellSlice); ok {
		if c := e.st.cells[cs.Cell]; c != nil && c.Escaped == "" {
			if n, err := strconv.Atoi(v.term(e.st, i).S); err == nil {
				if n >= cs.N {
					return v.zero(cs.T.Underlying().(*types.Slice).Elem()) // not an element: the clause is guarded by the length
				}
				return v.elemOrField(e.st, c.V, n)
			}
		}
	}
	t := v.term(e.st, b)
	ix := v.term(e.st, i)
	if g, ok := t.T.(*ghostMap); ok {
		return Term{"(select " + t.S + " " + e.coerceTo(ix, g.k).S + ")", g.v}
	}
	switch u := t.T.Underlying().(type) {
	case *types.Slice:
		return v.loadElem(e.st, u.Elem(), "(s-loc "+t.S+")", "(s-off "+t.S+")", ix.S, nil)
	case *types.Map:
		k := e.coerceTo(ix, u.Key())
		z := v.term(e.st, v.zero(u.Elem()))
		r := ite(and("(not (= "+t.S+" 0))", "(select "+v.mapDom(e.st, t)+" "+k.S+")"), "(select "+v.mapVal(e.st, t)+" "+k.S+")", z.S)
		if _, isS := u.Elem().Underlying().(*types.Slice); isS && !strings.Contains(r, "q!") {
			r = v.named("me", v.so.sort(u.Elem()), r) // keeps if-then-else out of quantifier patterns
		}
		return Term{r, u.Elem()}
	case *types.Array:
		return Term{"(select " + t.S + " " + ix.S + ")", u.Elem()}
	}
	if isString(t.T) {
		return Term{"(str.to_code (str.at " + t.S + " " + ix.S + "))", types.Typ[types.Byte]}
	}
	e.fail("index of %s", t.T)
	return nil
}

func (e *specEnv) coerceTo(x Term, t types.Type) Term {
	if isIface(t) && !isIface(x.T) {
		return e.v.term(e.st, Iface{Dyn: x.T, V: x, T: t})
	}
	y, _ := e.unify(x, Term{"", t})
	return y
}

func (e *specEnv) at(st *State) *specEnv {
	n := *e
	n.st = st
	return &n
}

func (e *specEnv) call(x *Expr) Val {
	v := e.v
	f := x.Kids[0]
	args := x.Kids[1:]
	bt, in, str := types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String]
	if f.Op != "ident" {
		e.fail("call of non-name")
	}
	s := func(i int) string { return e.term(args[i]).S }
	switch f.Val {
	case "old":
		if e.old == nil {
			e.fail("old() without entry state")
		}
		n := e.at(e.old)
		return n.eval(args[0])
	case "pre":
		if e.pre == nil {
			e.fail("pre() outside a loop invariant")
		}
		return e.at(e.pre).eval(args[0])
	case "len":
		y := e.eval(args[0])
		if cs, ok := y.(CellSlice); ok {
			return Term{fmt.Sprint(cs.N), in}
		}
		t := v.term(e.st, y)
		if m, ok := t.T.Underlying().(*types.Map); ok && m != nil {
			if v.pureDepth > 0 {
				return Term{v.mapLen(e.st, t), in}
			}
		}
		return Term{v.lenOf(e.st, t), in}
	case "trigger": // trigger(body, t1, t2...): the body of a quantifier with one multi-pattern
		b := e.boolean(args[0])
		var ps []string
		for i := 1; i < len(args); i++ {
			ps = append(ps, s(i))
		}
		return Term{"(! " + b + " :pattern (" + strings.Join(ps, " ") + "))", bt}
	case "refind": // whether a regular expression finds a match in a text
		return v.uf("refind", bt, e.term(args[0]), e.term(args[1]))
	case "inre": // inre(s, "go regexp"): whether the regular expression finds a match
		if args[1].Op != "string" {
			e.fail("inre needs a literal")
		}
		pat, _ := strconv.Unquote(args[1].Val)
		r, err := smtRegexp(pat)
		if err != nil {
			e.fail(err.Error())
		}
		return Term{"(str.in_re " + s(0) + " " + r + ")", bt}
	case "size": // the number of keys of a set of visited keys
		return v.uf("size", in, e.term(args[0]))
	case "cap":
		return Term{"(s-cap " + s(0) + ")", in}
	case "off":
		return Term{"(s-off " + s(0) + ")", in}
	case "loc":
		t := e.term(args[0])
		switch t.T.Underlying().(type) {
		case *types.Slice:
			return Term{"(s-loc " + t.S + ")", in}
		}
		return Term{t.S, in}
	case "elems": // the backing array of a slice as a ghost map indexed from 0 (needs off())
		t := e.term(args[0])
		el := t.T.Underlying().(*types.Slice).Elem()
		srt := v.so.sort(el)
		h := v.heapGet(e.st, "S|"+srt, arr(arr(srt)))
		return Term{"(select " + h + " (s-loc " + t.S + "))", &ghostMap{in, el}}
	case "fieldmap": // fieldmap(T.f): the values of field f of every T, by pointer
		sel := args[0]
		if sel.Op != "sel" || sel.Kids[0].Op != "ident" {
			e.fail("fieldmap needs Type.field")
		}
		root := v.prog.specType(e.pkg, sel.Kids[0].Val)
		ss, ok := structOf(root)
		if !ok {
			e.fail("fieldmap needs a struct type")
		}
		for i := 0; i < ss.NumFields(); i++ {
			if ss.Field(i).Name() == sel.Val {
				h := v.heapGet(e.st, fieldKey(root, []int{i}), arr(v.so.sort(ss.Field(i).Type())))
				return Term{h, &ghostMap{types.NewPointer(root), ss.Field(i).Type()}}
			}
		}
		e.fail("no such field")
	case "elt":
		m := e.term(args[0])
		g := m.T.(*ghostMap)
		return Term{"(" + v.so.eltFn(g.v) + " " + m.S + " " + s(1) + " " + s(2) + ")", g.v}
	case "has":
		m := e.term(args[0])
		if g, ok := m.T.(*ghostMap); ok {
			return Term{"(select " + m.S + " " + e.coerceTo(e.term(args[1]), g.k).S + ")", bt}
		}
		mt := m.T.Underlying().(*types.Map)
		k := e.coerceTo(e.term(args[1]), mt.Key())
		return Term{and("(not (= "+m.S+" 0))", "(select "+v.mapDom(e.st, m)+" "+k.S+")"), bt}
	case "store":
		m := e.term(args[0])
		g := m.T.(*ghostMap)
		return Term{"(store " + m.S + " " + e.coerceTo(e.term(args[1]), g.k).S + " " + e.coerceTo(e.term(args[2]), g.v).S + ")", g}
	case "prefixof":
		return Term{"(str.prefixof " + s(0) + " " + s(1) + ")", bt}
	case "suffixof":
		return Term{"(str.suffixof " + s(0) + " " + s(1) + ")", bt}
	case "contains":
		return Term{"(str.contains " + s(0) + " " + s(1) + ")", bt}
	case "indexof":
		from := "0"
		if len(args) > 2 {
			from = s(2)
		}
		return Term{"(str.indexof " + s(0) + " " + s(1) + " " + from + ")", in}
	case "substr":
		return Term{"(str.substr " + s(0) + " " + s(1) + " " + s(2) + ")", str}
	case "replaceall":
		return Term{"(go_replace_all " + s(0) + " " + s(1) + " " + s(2) + ")", str}
	case "at":
		return Term{"(str.at " + s(0) + " " + s(1) + ")", str}
	case "fromcode":
		return Term{"(str.from_code " + s(0) + ")", str}
	case "tocode":
		return Term{"(str.to_code " + s(0) + ")", in}
	case "toint":
		return Term{"(str.to_int " + s(0) + ")", in}
	case "runestr":
		return Term{v.runeStr(s(0)), str}
	case "concat":
		var xs []string
		for i := range args {
			xs = append(xs, s(i))
		}
		return Term{"(str.++ " + strings.Join(xs, " ") + ")", str}
	case "errtext":
		t := e.term(args[0])
		return v.uf("error_text", str, t)
	case "fresh":
		t := e.term(args[0])
		ref := v.alloc0
		if e.old != nil {
			ref = e.old.alloc
		}
		l := t.S
		if _, ok := t.T.Underlying().(*types.Slice); ok {
			l = "(s-loc " + t.S + ")"
		}
		if isIface(t.T) {
			l = "(i-val " + t.S + ")"
		}
		return Term{fmt.Sprintf("(and (<= %s %s) (< %s %s))", ref, l, l, e.st.alloc), bt}
	case "allocated":
		t := e.term(args[0])
		l := t.S
		if _, ok := t.T.Underlying().(*types.Slice); ok {
			l = "(s-loc " + t.S + ")"
		}
		return Term{fmt.Sprintf("(and (<= 0 %s) (< %s %s))", l, l, e.st.alloc), bt}
	case "wf":
		return Term{v.wf(e.st, e.term(args[0])), bt}
	case "typeis":
		t := v.prog.specType(e.pkg, x.Val)
		y := e.eval(args[0])
		if i, ok := y.(Iface); ok {
			if i.Dyn != nil && types.Identical(i.Dyn, t) {
				return Term{"true", bt}
			}
			return Term{"false", bt}
		}
		ys := v.term(e.st, y).S
		cond := fmt.Sprintf("(= (i-typ %s) %d)", ys, v.so.typeID(t))
		if srt := v.so.sort(t); srt != "Int" {
			n := v.so.boxFn(srt)
			if v.pureDepth == 0 {
				_, fact := v.so.unbox(ys, t)
				v.sv.assert(imp(cond, fact))
				_ = n
			}
		}
		return Term{cond, bt}
	case "implements":
		t := v.prog.specType(e.pkg, x.Val)
		y := e.eval(args[0])
		if i, ok := y.(Iface); ok {
			if i.Dyn != nil && types.Implements(i.Dyn, t.Underlying().(*types.Interface)) {
				return Term{"true", bt}
			}
			return Term{"false", bt}
		}
		return Term{"(" + v.so.implPred(t) + " (i-typ " + v.term(e.st, y).S + "))", bt}
	case "dyntype":
		return Term{"(i-typ " + s(0) + ")", in}
	case "payload":
		return Term{"(i-val " + s(0) + ")", in}
	case "box":
		t := e.term(args[0])
		if x.Val != "" {
			ty := v.prog.specType(e.pkg, x.Val)
			t, _ = e.unify(t, Term{"", ty})
			t.T = ty
		}
		return Iface{Dyn: t.T, V: t, T: types.Universe.Lookup("any").Type()}
	case "unbox":
		t := v.prog.specType(e.pkg, x.Val)
		y := e.eval(args[0])
		if i, ok := y.(Iface); ok && i.Dyn != nil && types.Identical(i.Dyn, t) {
			return i.V
		}
		r, _ := v.so.unbox(v.term(e.st, y).S, t)
		return Term{r, t}
	case "zero":
		return v.zero(v.prog.specType(e.pkg, x.Val))
	case "tofloat": // float64(i)
		return v.uf("convintfloat64", types.Typ[types.Float64], Term{s(0), in})
	case "truncated": // int(f)
		return v.uf("convfloat64int", types.Typ[types.Int], Term{s(0), types.Typ[types.Float64]})
	case "int": // mathematical value of an integer-like term
		return Term{s(0), in}
	case "visited":
		e.fail("visited is bound by an invariant variable of type gmap[K]bool")
	}
	if m, ok := v.specs.Macros[f.Val]; ok {
		var as []Val
		for _, a := range args {
			as = append(as, e.eval(a))
		}
		return e.macro(m, as)
	}
	for _, d := range v.specs.SMT {
		if d.name == f.Val && !d.isAxiom {
			var as []Term
			v.declSMT(d)
			if d.text == "rec" {
				m := v.specs.Macros["rec:"+d.name]
				for i, p := range m.Params {
					as = append(as, e.coerceTo(e.term(args[i]), v.prog.specType(m.Pkg, p.Type)))
				}
				return Term{app("sf_"+d.name, as), v.prog.specType(m.Pkg, m.Ret)}
			}
			for i := range d.params {
				as = append(as, e.coerceTo(e.term(args[i]), v.prog.specType(d.pkg, d.params[i])))
			}
			return Term{app("sf_"+d.name, as), v.prog.specType(d.pkg, d.ret)}
		}
	}
	// conversion T(x)
	if len(args) == 1 {
		if t := v.prog.trySpecType(e.pkg, f.Val); t != nil {
			y := e.term(args[0])
			if y.T == untypedInt {
				y, _ = e.unify(y, Term{"", t})
				return Term{y.S, t}
			}
			return v.convert(e.st, y, t)
		}
	}
	e.fail("unknown function %s", f.Val)
	return nil
}

func app(f string, as []Term) string {
	if len(as) == 0 {
		return f
	}
	var xs []string
	for _, a := range as {
		xs = append(xs, a.S)
	}
	return "(" + f + " " + strings.Join(xs, " ") + ")"
}

func (e *specEnv) macro(m *Macro, args []Val) Val {
	v := e.v
	if len(args) != len(m.Params) {
		e.fail("macro %s wants %d arguments", m.Name, len(m.Params))
	}
	names := map[string]Val{}
	for i, p := range m.Params {
		a := args[i]
		t := v.prog.specType(m.Pkg, p.Type)
		if tm, ok := a.(Term); ok {
			if tm.T == untypedInt || isNilConst(tm) {
				tm, _ = e.unify(tm, Term{"", t})
				a = tm
			}
		}
		if isIface(t) {
			a = v.coerce(e.st, a, t)
		}
		names[p.Name] = a
	}
	n := *e
	n.names = names
	n.pkg = m.Pkg
	return n.eval(m.Body)
}

// declSMT declares a specification function once per solver.
func (v *Verifier) declSMT(d smtDecl) {
	key := "sf_" + d.name
	if v.so.declared[key] {
		return
	}
	v.so.declared[key] = true
	if d.text == "rec" {
		m := v.specs.Macros["rec:"+d.name]
		v.pureDepth++
		defer func() { v.pureDepth-- }()
		names := map[string]Val{}
		var ps []string
		for _, p := range m.Params {
			t := v.prog.specType(m.Pkg, p.Type)
			q := "q!" + p.Name + "_" + d.name
			ps = append(ps, "("+q+" "+v.so.sort(t)+")")
			names[p.Name] = Term{q, t}
		}
		st := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: "0"}
		env := &specEnv{v: v, st: st, names: names, pkg: m.Pkg}
		rt := v.prog.specType(m.Pkg, m.Ret)
		body := env.coerceTo(env.term(m.Body), rt)
		v.sv.decl(key, fmt.Sprintf("(define-fun-rec %s (%s) %s %s)", key, strings.Join(ps, " "), v.so.sort(rt), body.S))
		return
	}
	var ps []string
	for _, p := range d.params {
		ps = append(ps, v.so.sort(v.prog.specType(d.pkg, p)))
	}
	v.sv.decl(key, fmt.Sprintf("(declare-fun %s (%s) %s)", key, strings.Join(ps, " "), v.so.sort(v.prog.specType(d.pkg, d.ret))))
	// axioms that mention it
	for _, c := range v.specs.Asserts {
		if !v.uses(c) {
			continue // a definition that only the functions which ask for it unfold
		}
		if mentions(c.E, d.name) && !v.so.declared["ax:"+c.Text] {
			if v.ground && groundTrigger(c.E) != nil {
				continue // instantiated by the hints of the lemma
			}
			v.so.declared["ax:"+c.Text] = true
			st := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: "0"}
			env := &specEnv{v: v, st: st, names: map[string]Val{}, pkg: d.pkg}
			v.sv.fact(env.boolean(c.E))
			if !c.Lemma {
				v.assume("axiom " + c.File + ": " + c.Text)
			}
		}
	}
}

// groundTrigger gives the call f(x1..xn) that is the whole pattern of an axiom over x1..xn.
func groundTrigger(x *Expr) *Expr {
	if x.Op != "forall" || x.Kids[0].Op != "call" || x.Kids[0].Kids[0].Val != "trigger" || len(x.Kids[0].Kids) != 3 {
		return nil
	}
	t := x.Kids[0].Kids[2]
	if t.Op != "call" || len(t.Kids)-1 != len(x.Vars) {
		return nil
	}
	for i, vd := range x.Vars {
		if a := t.Kids[i+1]; a.Op != "ident" || a.Val != vd.Name {
			return nil
		}
	}
	return t
}

// instantiate asserts the instances of the axioms in use that the hint calls for.
func (v *Verifier) instantiate(e *specEnv, h *Expr) {
	if h.Op != "call" {
		return
	}
	for _, c := range v.specs.Asserts {
		t := (*Expr)(nil)
		if v.uses(c) && c.Use != "" {
			t = groundTrigger(c.E)
		}
		if t == nil || t.Kids[0].Val != h.Kids[0].Val {
			continue
		}
		n := e
		for i, vd := range c.E.Vars {
			n = n.bind(vd.Name, e.term(h.Kids[i+1]))
		}
		v.sv.assert(n.boolean(c.E.Kids[0].Kids[1]))
		if !c.Lemma {
			v.assume("axiom " + c.File + ": " + c.Text)
		}
	}
}

func mentions(x *Expr, n string) bool {
	if x == nil {
		return false
	}
	if x.Op == "ident" && x.Val == n {
		return true
	}
	for _, k := range x.Kids {
		if mentions(k, n) {
			return true
		}
	}
	return false
}

func (v *Verifier) ghostType(n string) types.Type {
	for _, g := range v.specs.Ghosts {
		if g.name == n {
			return v.prog.specType(g.pkg, g.typ)
		}
	}
	panic(unsupported("no ghost " + n))
}

func (v *Verifier) ghostGet(st *State, n string) Term {
	t := v.ghostType(n)
	key := "G|" + n
	if h, ok := st.heap[key]; ok {
		return Term{h, t}
	}
	c := "G0_" + n
	if _, ok := v.sv.byN[c]; !ok {
		v.sv.decl(c, fmt.Sprintf("(declare-const %s %s)", c, v.so.sort(t)))
	}
	st.heap[key] = c
	return Term{c, t}
}

// address evaluates the place named in a modifies clause.
func (e *specEnv) address(x *Expr) Addr {
	v := e.v
	if x.Op == "sel" {
		b := e.eval(x.Kids[0])
		var a Addr
		switch y := b.(type) {
		case Addr:
			a = y
		case Term:
			a = v.deref(e.st, y)
		default:
			e.fail("modifies place %s", x.Val)
		}
		nt := a.T
		var tp *types.Package
		if n, ok := derefNamed(nt); ok {
			tp = n.Obj().Pkg()
		} else if p := v.prog.pkg(e.pkg); p != nil {
			tp = p.Pkg
		}
		_, idx, _ := types.LookupFieldOrMethod(nt, true, tp, x.Val)
		if idx == nil {
			e.fail("no field %s in %s", x.Val, nt)
		}
		for n, i := range idx {
			st, ok := structOf(a.T)
			if !ok {
				// embedded pointer
				p := v.load(e.st, a)
				a = v.deref(e.st, p)
				st, _ = structOf(a.T)
			}
			_ = n
			a.Path = append(append([]int(nil), a.Path...), i)
			a.T = st.Field(i).Type()
		}
		return a
	}
	if x.Op == "un" && x.Val == "*" {
		return v.deref(e.st, e.eval(x.Kids[0]))
	}
	e.fail("not a place")
	return Addr{}
}

// ---- type expressions -----------------------------------------------------------------------

func (p *Program) specType(pkg, text string) types.Type {
	t := p.trySpecType(pkg, text)
	if t == nil {
		panic(unsupported("specification: unknown type " + text + " in " + pkg))
	}
	return t
}

func (p *Program) trySpecType(pkg, text string) types.Type {
	text = strings.TrimSpace(text)
	k := pkg + "|" + text
	p.mu.Lock()
	if t, ok := p.typeCache[k]; ok {
		p.mu.Unlock()
		return t
	}
	p.mu.Unlock()
	t := p.parseType(pkg, text)
	p.mu.Lock()
	p.typeCache[k] = t
	p.mu.Unlock()
	return t
}

func (p *Program) parseType(pkg, text string) types.Type {
	if strings.HasPrefix(text, "gmap[") {
		d := 0
		for i := 5; i < len(text); i++ {
			if text[i] == '[' {
				d++
			}
			if text[i] == ']' {
				if d == 0 {
					a, b := p.trySpecType(pkg, text[5:i]), p.trySpecType(pkg, text[i+1:])
					if a == nil || b == nil {
						return nil
					}
					return &ghostMap{a, b}
				}
				d--
			}
		}
		return nil
	}
	x, err := parser.ParseExpr(text)
	if err != nil {
		return nil
	}
	return p.resolveType(pkg, x)
}

func (p *Program) resolveType(pkg string, x ast.Expr) types.Type {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return p.resolveType(pkg, y.X)
	case *ast.Ident:
		if sp := p.pkg(pkg); sp != nil {
			if o, ok := sp.Pkg.Scope().Lookup(y.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(y.Name).(*types.TypeName); ok {
			return o.Type()
		}
		if t := p.typeArgs[pkg+"."+y.Name]; t != nil {
			return t
		}
		if a := p.specs.Types[y.Name]; a != nil {
			return p.trySpecType(a.Pkg, a.Text)
		}
	case *ast.StarExpr:
		if t := p.resolveType(pkg, y.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		t := p.resolveType(pkg, y.Elt)
		if t == nil {
			return nil
		}
		if y.Len == nil {
			return types.NewSlice(t)
		}
		if l, ok := y.Len.(*ast.BasicLit); ok {
			n, _ := strconv.ParseInt(l.Value, 0, 64)
			return types.NewArray(t, n)
		}
	case *ast.MapType:
		k, t := p.resolveType(pkg, y.Key), p.resolveType(pkg, y.Value)
		if k != nil && t != nil {
			return types.NewMap(k, t)
		}
	case *ast.InterfaceType:
		if len(y.Methods.List) == 0 {
			return types.Universe.Lookup("any").Type()
		}
		var ms []*types.Func
		for _, m := range y.Methods.List {
			sig, ok := p.resolveType(pkg, m.Type).(*types.Signature)
			if !ok || len(m.Names) != 1 {
				return nil
			}
			ms = append(ms, types.NewFunc(0, nil, m.Names[0].Name, sig))
		}
		return types.NewInterfaceType(ms, nil).Complete()
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if sp := p.pkgByName(pkg, id.Name); sp != nil {
				if o, ok := sp.Pkg.Scope().Lookup(y.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.IndexExpr:
		g := p.resolveType(pkg, y.X)
		a := p.resolveType(pkg, y.Index)
		if g != nil && a != nil {
			if n, ok := types.Unalias(g).(*types.Named); ok {
				t, err := types.Instantiate(nil, n, []types.Type{a}, false)
				if err == nil {
					return t
				}
			}
		}
	case *ast.FuncType:
		var ps, rs []*types.Var
		variadic := false
		if y.Params != nil {
			for _, f := range y.Params.List {
				ft := f.Type
				if el, ok := ft.(*ast.Ellipsis); ok {
					variadic = true
					t := p.resolveType(pkg, el.Elt)
					if t == nil {
						return nil
					}
					ps = append(ps, types.NewVar(0, nil, "", types.NewSlice(t)))
					continue
				}
				t := p.resolveType(pkg, ft)
				if t == nil {
					return nil
				}
				ps = append(ps, types.NewVar(0, nil, "", t))
			}
		}
		if y.Results != nil {
			for _, f := range y.Results.List {
				t := p.resolveType(pkg, f.Type)
				if t == nil {
					return nil
				}
				rs = append(rs, types.NewVar(0, nil, "", t))
			}
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), variadic)
	}
	return nil
}
