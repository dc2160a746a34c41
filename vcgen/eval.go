package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *Verifier) eval(st *State, ins ssa.Value) Val {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t, _ := ptrElem(x.Type())
		id := st.frame.key + "/" + x.Name()
		name := x.Comment
		st.cells[id] = &Cell{T: t, V: v.zero(t), Name: name}
		v.noteMod(st, "c:"+id)
		return Addr{Cell: id, Root: t, T: t}
	case *ssa.UnOp:
		return v.unop(st, x)
	case *ssa.BinOp:
		return v.binop(st, x.Op, v.val(st, x.X), v.val(st, x.Y), x.Type(), x.Pos())
	case *ssa.ChangeType:
		return v.retype(st, v.val(st, x.X), x.Type())
	case *ssa.Convert:
		return v.convert(st, v.val(st, x.X), x.Type())
	case *ssa.MultiConvert:
		return v.convert(st, v.val(st, x.X), x.Type())
	case *ssa.ChangeInterface:
		y := v.val(st, x.X)
		if i, ok := y.(Iface); ok {
			i.T = x.Type()
			return i
		}
		return Term{v.term(st, y).S, x.Type()}
	case *ssa.MakeInterface:
		return Iface{Dyn: x.X.Type(), V: v.val(st, x.X), T: x.Type()}
	case *ssa.MakeClosure:
		c := Closure{Fn: x.Fn.(*ssa.Function), T: x.Type()}
		for _, b := range x.Bindings {
			c.Bind = append(c.Bind, v.val(st, b))
		}
		return c
	case *ssa.MakeMap:
		loc := v.newLoc(st)
		mt := x.Type().Underlying().(*types.Map)
		dk, vk, lk, ks, vs := v.mapKeys(x.Type())
		d := v.heapGet(st, dk, arr("(Array "+ks+" Bool)"))
		v.heapSet(st, dk, arr("(Array "+ks+" Bool)"), fmt.Sprintf("(store %s %s ((as const (Array %s Bool)) false))", d, loc, ks))
		_ = vk
		_ = vs
		l := v.heapGet(st, lk, arr("Int"))
		v.heapSet(st, lk, arr("Int"), fmt.Sprintf("(store %s %s 0)", l, loc))
		_ = mt
		return Term{loc, x.Type()}
	case *ssa.MakeSlice:
		n := v.term(st, v.val(st, x.Len)).S
		c := v.term(st, v.val(st, x.Cap)).S
		v.safe(st, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", n, n, c), "make slice bounds", x.Pos())
		elem := x.Type().Underlying().(*types.Slice).Elem()
		srt := v.so.sort(elem)
		loc := v.newLoc(st)
		key := "S|" + srt
		h := v.heapGet(st, key, arr(arr(srt)))
		z := v.term(st, v.zero(elem)).S
		v.heapSet(st, key, arr(arr(srt)), fmt.Sprintf("(store %s %s ((as const %s) %s))", h, loc, arr(srt), z))
		return Term{fmt.Sprintf("(mk-slc %s 0 %s %s)", loc, n, c), x.Type()}
	case *ssa.MakeChan:
		return Term{v.newLoc(st), x.Type()}
	case *ssa.FieldAddr:
		p := v.val(st, x.X)
		v.nilCheck(st, p, x.Pos())
		a := v.deref(st, p)
		st0, _ := structOf(a.T)
		if st0 == nil {
			panic(unsupported("field address of " + a.T.String()))
		}
		a.Path = append(append([]int(nil), a.Path...), x.Field)
		a.T = st0.Field(x.Field).Type()
		return a
	case *ssa.Field:
		return v.fieldOf(st, v.val(st, x.X), x.Field)
	case *ssa.IndexAddr:
		return v.indexAddr(st, v.val(st, x.X), v.val(st, x.Index), x.X.Type(), x.Pos())
	case *ssa.Index:
		y := v.val(st, x.X)
		i := v.term(st, v.val(st, x.Index)).S
		if isString(x.X.Type()) {
			s := v.term(st, y).S
			v.safe(st, fmt.Sprintf("(and (<= 0 %s) (< %s (str.len %s)))", i, i, s), "string index", x.Pos())
			return Term{v.name("b", "Int", fmt.Sprintf("(str.to_code (str.at %s %s))", s, i)), x.Type()}
		}
		if av, ok := y.(ArrayVal); ok {
			if n, err := strconv.Atoi(i); err == nil && n < len(av.E) {
				return av.E[n]
			}
		}
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			v.safe(st, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, at.Len()), "array index", x.Pos())
			return Term{fmt.Sprintf("(select %s %s)", v.term(st, y).S, i), x.Type()}
		}
	case *ssa.Lookup:
		return v.lookup(st, v.val(st, x.X), v.val(st, x.Index), x.CommaOk, x.Pos())
	case *ssa.Slice:
		return v.slice(st, x)
	case *ssa.Extract:
		t := v.val(st, x.Tuple).(Tuple)
		return t[x.Index]
	case *ssa.Range:
		y := v.val(st, x.X)
		id := st.frame.key + "/" + x.Name()
		var init Val
		if isString(x.X.Type()) {
			init = Term{"0", types.Typ[types.Int]}
		} else {
			mt := x.X.Type().Underlying().(*types.Map)
			ks := v.so.sort(mt.Key())
			init = Term{fmt.Sprintf("((as const (Array %s Bool)) false)", ks), &ghostMap{mt.Key(), types.Typ[types.Bool]}}
			v.sv.assert("(= " + v.uf("size", types.Typ[types.Int], init.(Term)).S + " 0)")
		}
		st.cells[id] = &Cell{T: init.(Term).T, V: init, Name: "iter"}
		v.noteMod(st, "c:"+id)
		return Iter{Cell: id, X: y, T: x.X.Type()}
	case *ssa.Next:
		return v.next(st, x)
	}
	panic(unsupported(fmt.Sprintf("instruction %T (%s)", ins, ins)))
}

func (v *Verifier) retype(st *State, x Val, t types.Type) Val {
	switch y := x.(type) {
	case Term:
		if v.so.sort(y.T) == v.so.sort(t) {
			return Term{y.S, t}
		}
		if _, ok := structOf(t); ok {
			sv := v.explode(st, y)
			sv.T = t
			return sv
		}
		return v.convert(st, x, t)
	case Closure:
		y.T = t
		return y
	case StructVal:
		y.T = t
		return y
	case Addr:
		if e, ok := ptrElem(t); ok {
			if typeKey(e) != typeKey(y.T) {
				return v.retype(st, v.term(st, y), t)
			}
		}
		return y
	case CellSlice:
		y.T = t
		return y
	case Iface:
		y.T = t
		return y
	case ArrayVal:
		y.T = t
		return y
	}
	return x
}

func (v *Verifier) unop(st *State, x *ssa.UnOp) Val {
	y := v.val(st, x.X)
	switch x.Op {
	case token.MUL:
		v.nilCheck(st, y, x.Pos())
		return v.load(st, y)
	case token.NOT:
		return Term{not(v.term(st, y).S), x.Type()}
	case token.SUB:
		t := v.term(st, y)
		if isFloat(t.T) {
			return v.uf("fneg", x.Type(), t)
		}
		if _, ok := v.so.isBV(t.T); ok {
			return Term{"(bvneg " + t.S + ")", x.Type()}
		}
		return Term{"(- " + t.S + ")", x.Type()}
	case token.XOR:
		t := v.term(st, y)
		if _, ok := v.so.isBV(t.T); ok {
			return Term{"(bvnot " + t.S + ")", x.Type()}
		}
		return Term{"(- (- " + t.S + ") 1)", x.Type()}
	}
	panic(unsupported("unop " + x.Op.String()))
}

// uf applies an uninterpreted function determined by name and sorts.
// bitsOfInt is a bit operation on mathematical integers: exact on constants, bounded for a mask, else open.
func (v *Verifier) bitsOfInt(op string, t types.Type, x, y Term) Term {
	a, e1 := strconv.ParseInt(x.S, 10, 62)
	b, e2 := strconv.ParseInt(y.S, 10, 62)
	if e1 == nil && e2 == nil && a >= 0 && b >= 0 {
		switch op {
		case "&":
			return Term{strconv.FormatInt(a&b, 10), t}
		case "|":
			return Term{strconv.FormatInt(a|b, 10), t}
		case "^":
			return Term{strconv.FormatInt(a^b, 10), t}
		case "&^":
			return Term{strconv.FormatInt(a&^b, 10), t}
		}
	}
	if op == "&" && e1 == nil {
		x, y, e1, e2, a, b = y, x, e2, e1, b, a
	}
	r := v.uf("int"+op, t, x, y)
	if op == "&" && e2 == nil && b >= 0 && v.pureDepth == 0 {
		v.sv.assert("(and (<= 0 " + r.S + ") (<= " + r.S + " " + y.S + "))")
	}
	return r
}

// floatOp is an operation on floating-point numbers; + and * are commutative, the rest is left open.
func (v *Verifier) floatOp(op string, t types.Type, x, y Term) Term {
	r := v.uf("f"+op, t, x, y)
	if (op == "*" || op == "+") && v.pureDepth == 0 {
		v.sv.assert(eq(r.S, v.uf("f"+op, t, y, x).S))
	}
	return r
}

func (v *Verifier) uf(name string, t types.Type, args ...Term) Term {
	var ss, as []string
	for _, a := range args {
		ss = append(ss, v.so.sort(a.T))
		as = append(as, a.S)
	}
	rs := v.so.sort(t)
	n := "uf_" + v.so.ident("uf:"+name+":"+strings.Join(ss, ",")+":"+rs)
	if _, ok := v.sv.byN[n]; !ok {
		v.sv.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), rs))
	}
	if len(as) == 0 {
		return Term{n, t}
	}
	return Term{"(" + n + " " + strings.Join(as, " ") + ")", t}
}

func (v *Verifier) isNilVal(st *State, x Val) (string, bool) {
	switch y := x.(type) {
	case Iface:
		if y.Dyn == nil {
			return "true", true
		}
		return "false", true
	case Closure:
		return "false", true
	case Addr:
		if y.Base != "" && !y.IsElem && len(y.Path) == 0 {
			return eq(y.Base, "0"), true
		}
		return "false", true
	case CellSlice:
		return "false", true
	case Term:
		if _, ok := v.so.isBV(y.T); ok {
			return "", false
		}
		switch y.T.Underlying().(type) {
		case *types.Slice:
			return "(= (s-loc " + y.S + ") 0)", true
		case *types.Interface:
			return "(= (i-typ " + y.S + ") 0)", true
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return "(= " + y.S + " 0)", true
		}
	}
	return "", false
}

func isNilConst(x Val) bool {
	t, ok := x.(Term)
	if !ok {
		return false
	}
	if b, ok := t.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return true
	}
	switch t.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return t.S == "0"
	case *types.Slice:
		return t.S == "(mk-slc 0 0 0 0)"
	case *types.Interface:
		return t.S == "(mk-ifc 0 0)"
	}
	return false
}

func (v *Verifier) equal(st *State, a, b Val) string {
	if isNilConst(b) {
		if s, ok := v.isNilVal(st, a); ok {
			return s
		}
	}
	if isNilConst(a) {
		if s, ok := v.isNilVal(st, b); ok {
			return s
		}
	}
	if x, ok := a.(Iface); ok {
		if y, ok := b.(Iface); ok && x.Dyn != nil && y.Dyn != nil && !types.Identical(x.Dyn, y.Dyn) {
			return "false"
		}
	}
	if x, ok := a.(Addr); ok {
		if y, ok := b.(Addr); ok {
			if x.Cell != "" && y.Cell != "" {
				if x.Cell == y.Cell && fmt.Sprint(x.Path) == fmt.Sprint(y.Path) {
					return "true"
				}
				return "false"
			}
			if x.Cell == "" && y.Cell == "" && !x.IsElem && !y.IsElem && x.Global == nil && y.Global == nil {
				if fmt.Sprint(x.Path) == fmt.Sprint(y.Path) && typeKey(x.Root) == typeKey(y.Root) {
					return eq(x.Base, y.Base)
				}
			}
		} else if x.Cell != "" && st.cells[x.Cell] != nil && st.cells[x.Cell].Escaped == "" {
			return "false" // a fresh local never aliases
		}
	}
	if y, ok := b.(Addr); ok {
		if _, ok := a.(Addr); !ok && y.Cell != "" && st.cells[y.Cell] != nil && st.cells[y.Cell].Escaped == "" {
			return "false"
		}
	}
	x, y := v.term(st, a), v.term(st, b)
	// comparison of an interface with a concrete value
	if isIface(x.T) && !isIface(y.T) {
		y = v.term(st, Iface{Dyn: y.T, V: y, T: x.T})
	} else if !isIface(x.T) && isIface(y.T) {
		x = v.term(st, Iface{Dyn: x.T, V: x, T: y.T})
	}
	return eq(x.S, y.S)
}

func (v *Verifier) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return Term{v.equal(st, a, b), t}
	case token.NEQ:
		return Term{not(v.equal(st, a, b)), t}
	}
	x, y := v.term(st, a), v.term(st, b)
	if _, ok := v.so.isBV(x.T); ok {
		return v.bvop(st, op, x, y, t)
	}
	if isString(x.T) {
		switch op {
		case token.ADD:
			return Term{v.name("s", "String", "(str.++ "+x.S+" "+y.S+")"), t}
		case token.LSS:
			return Term{"(str.< " + x.S + " " + y.S + ")", t}
		case token.LEQ:
			return Term{"(str.<= " + x.S + " " + y.S + ")", t}
		case token.GTR:
			return Term{"(str.< " + y.S + " " + x.S + ")", t}
		case token.GEQ:
			return Term{"(str.<= " + y.S + " " + x.S + ")", t}
		}
	}
	if isFloat(x.T) {
		return v.floatOp(op.String(), t, x, y)
	}
	if bt, ok := x.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.LAND, token.AND:
			return Term{and(x.S, y.S), t}
		case token.LOR, token.OR:
			return Term{or(x.S, y.S), t}
		}
	}
	i := func(o string) Val {
		return Term{v.name("i", "Int", "("+o+" "+x.S+" "+y.S+")"), t}
	}
	c := func(o string) Val { return Term{"(" + o + " " + x.S + " " + y.S + ")", t} }
	switch op {
	case token.ADD:
		return foldInt(x.S, y.S, t, i("+"), func(a, b int64) int64 { return a + b })
	case token.SUB:
		return foldInt(x.S, y.S, t, i("-"), func(a, b int64) int64 { return a - b })
	case token.MUL:
		return i("*")
	case token.QUO:
		v.safe(st, "(not (= "+y.S+" 0))", "division by zero", pos)
		return Term{v.name("i", "Int", fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", x.S, x.S, y.S, x.S, y.S)), t}
	case token.REM:
		v.safe(st, "(not (= "+y.S+" 0))", "division by zero", pos)
		return Term{v.name("i", "Int", fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", x.S, x.S, y.S, x.S, y.S)), t}
	case token.LSS:
		return c("<")
	case token.LEQ:
		return c("<=")
	case token.GTR:
		return c(">")
	case token.GEQ:
		return c(">=")
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		if op == token.SHL {
			if n, err := strconv.Atoi(y.S); err == nil && n < 62 {
				return Term{fmt.Sprintf("(* %s %d)", x.S, 1<<n), t}
			}
		}
		r := v.bitsOfInt(op.String(), t, x, y)
		if _, err := strconv.ParseInt(r.S, 10, 64); err != nil {
			v.sv.assert(v.wf(st, r))
		}
		return r
	}
	panic(unsupported("binop " + op.String() + " on " + x.T.String()))
}

func foldInt(a, b string, t types.Type, d Val, f func(a, b int64) int64) Val {
	x, e1 := strconv.ParseInt(a, 10, 32)
	y, e2 := strconv.ParseInt(b, 10, 32)
	if e1 == nil && e2 == nil {
		return Term{smtInt(strconv.FormatInt(f(x, y), 10)), t}
	}
	return d
}

func (v *Verifier) bvop(st *State, op token.Token, x, y Term, t types.Type) Val {
	n, _ := v.so.isBV(x.T)
	if _, ok := v.so.isBV(y.T); !ok { // shift counts
		y = v.convert(st, y, x.T).(Term)
	}
	uns := isUnsigned(x.T.Underlying().(*types.Basic))
	m := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.SHL: "bvshl"}
	if o, ok := m[op]; ok {
		return Term{v.name("bv", fmt.Sprintf("(_ BitVec %d)", n), "("+o+" "+x.S+" "+y.S+")"), t}
	}
	switch op {
	case token.AND_NOT:
		return Term{v.name("bv", fmt.Sprintf("(_ BitVec %d)", n), "(bvand "+x.S+" (bvnot "+y.S+"))"), t}
	case token.SHR:
		if uns {
			return Term{"(bvlshr " + x.S + " " + y.S + ")", t}
		}
		return Term{"(bvashr " + x.S + " " + y.S + ")", t}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		o := map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[op]
		p := "bvs"
		if uns {
			p = "bvu"
		}
		return Term{"(" + p + o + " " + x.S + " " + y.S + ")", t}
	}
	panic(unsupported("bv op " + op.String()))
}

func (v *Verifier) convert(st *State, x Val, t types.Type) Val {
	if c, ok := x.(Closure); ok {
		c.T = t
		return c
	}
	y := v.term(st, x)
	from, to := y.T, t
	nb, fromBV := v.so.isBV(from)
	mb, toBV := v.so.isBV(to)
	switch {
	case fromBV && toBV:
		if nb == mb {
			return Term{y.S, t}
		}
		if nb > mb {
			return Term{fmt.Sprintf("((_ extract %d 0) %s)", mb-1, y.S), t}
		}
		ext := "sign_extend"
		if isUnsigned(from.Underlying().(*types.Basic)) {
			ext = "zero_extend"
		}
		return Term{fmt.Sprintf("((_ %s %d) %s)", ext, mb-nb, y.S), t}
	case fromBV && isInt(to):
		u := fmt.Sprintf("(bv2nat %s)", y.S)
		if !isUnsigned(from.Underlying().(*types.Basic)) {
			u = fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s))", y.S, nb, y.S, pow2(nb), y.S)
		}
		return Term{v.name("i", "Int", v.wrap(u, to)), t}
	case isInt(from) && toBV:
		if n, err := strconv.ParseInt(y.S, 10, 64); err == nil {
			return v.constTerm(constant.MakeInt64(n), t)
		}
		return Term{v.name("bv", fmt.Sprintf("(_ BitVec %d)", mb), fmt.Sprintf("((_ int2bv %d) %s)", mb, y.S)), t}
	case isInt(from) && isInt(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if fits(fb, tb) {
			return Term{y.S, t}
		}
		return Term{v.name("i", "Int", v.wrap(y.S, to)), t}
	case isInt(from) && isString(to):
		return Term{v.runeStr(y.S), t}
	case isString(from) && isString(to):
		return Term{y.S, t}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok && isByteLike(sl.Elem()) {
			srt := "Int"
			key := "S|" + srt
			loc := v.newLoc(st)
			h := v.heapGet(st, key, arr(arr(srt)))
			a := v.fresh("A", arr(srt))
			e := v.so.eltFn(sl.Elem())
			v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (str.len %s))) (= (%s %s 0 j) (str.to_code (str.at %s j)))) :pattern ((%s %s 0 j))))", y.S, e, a, y.S, e, a))
			v.heapSet(st, key, arr(arr(srt)), "(store "+h+" "+loc+" "+a+")")
			// remember that the bytes came from this string
			bs := v.uf("bytes_str", types.Typ[types.String], Term{a, &ghostMap{types.Typ[types.Int], types.Typ[types.Int]}}, Term{"0", types.Typ[types.Int]}, Term{"(str.len " + y.S + ")", types.Typ[types.Int]})
			v.sv.assert(eq(bs.S, y.S))
			return Term{fmt.Sprintf("(mk-slc %s 0 (str.len %s) (str.len %s))", loc, y.S, y.S), t}
		}
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok && isByteLike(sl.Elem()) {
			h := v.heapGet(st, "S|Int", arr(arr("Int")))
			bs := v.uf("bytes_str", types.Typ[types.String], Term{"(select " + h + " (s-loc " + y.S + "))", &ghostMap{types.Typ[types.Int], types.Typ[types.Int]}}, Term{"(s-off " + y.S + ")", types.Typ[types.Int]}, Term{"(s-len " + y.S + ")", types.Typ[types.Int]})
			r := v.name("s", "String", bs.S)
			v.sv.assert(fmt.Sprintf("(= (str.len %s) (s-len %s))", r, y.S))
			return Term{r, t}
		}
	case isFloat(from) && isFloat(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if fb.Kind() == tb.Kind() {
			return Term{y.S, t}
		}
		return v.uf("fconv"+tb.Name(), t, y)
	case isInt(from) && isFloat(to), isFloat(from) && isInt(to):
		r := v.uf("conv"+from.Underlying().String()+to.Underlying().String(), t, y)
		v.sv.assert(v.wf(st, r))
		return r
	}
	if v.so.sort(from) == v.so.sort(to) {
		return Term{y.S, t}
	}
	r := v.freshVal(st, "conv", t)
	v.assume("conversion " + from.String() + " -> " + to.String() + " (result arbitrary)")
	return r
}

func (v *Verifier) runeStr(c string) string {
	return v.name("rs", "String", fmt.Sprintf("(ite (and (<= 0 %s) (< %s 128)) (str.from_code %s) (rune_str %s))", c, c, c, c))
}

func isByteLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func fits(f, t *types.Basic) bool {
	if isUnsigned(f) == isUnsigned(t) {
		return intBits(f) <= intBits(t)
	}
	return isUnsigned(f) && intBits(f) < intBits(t)
}

func (v *Verifier) wrap(x string, t types.Type) string {
	b := t.Underlying().(*types.Basic)
	n := intBits(b)
	if isUnsigned(b) {
		return fmt.Sprintf("(mod %s %s)", x, pow2(n))
	}
	return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", x, pow2(n-1), pow2(n), pow2(n-1))
}

func (v *Verifier) indexAddr(st *State, x, idx Val, t types.Type, pos token.Pos) Val {
	i := v.term(st, idx).S
	if cs, ok := x.(CellSlice); ok && st.cells[cs.Cell].Escaped == "" {
		if n, err := strconv.Atoi(i); err == nil {
			if n < 0 || n >= cs.N {
				v.safe(st, "false", "index out of range", pos)
			}
			e := cs.T.Underlying().(*types.Slice).Elem()
			return Addr{Cell: cs.Cell, Root: st.cells[cs.Cell].T, Path: []int{n}, T: e}
		}
	}
	if e, ok := ptrElem(t); ok { // pointer to array
		at := e.Underlying().(*types.Array)
		a := v.deref(st, x)
		if n, err := strconv.Atoi(i); err == nil && a.Cell != "" && st.cells[a.Cell].Escaped == "" {
			if _, isArr := st.cells[a.Cell].V.(ArrayVal); isArr || len(a.Path) > 0 {
				a.Path = append(append([]int(nil), a.Path...), n)
				a.T = at.Elem()
				return a
			}
		}
		if a.Cell != "" && len(a.Path) == 0 {
			loc := v.escape(st, a.Cell)
			v.safe(st, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, at.Len()), "index out of range", pos)
			return Addr{Base: loc, Off: "0", Idx: i, IsElem: true, Root: at.Elem(), T: at.Elem()}
		}
		panic(unsupported("index of array pointer"))
	}
	s := v.term(st, x).S
	elem := t.Underlying().(*types.Slice).Elem()
	v.safe(st, fmt.Sprintf("(and (<= 0 %s) (< %s (s-len %s)))", i, i, s), "index out of range", pos)
	return Addr{Base: "(s-loc " + s + ")", Off: "(s-off " + s + ")", Idx: i, IsElem: true, Root: elem, T: elem}
}

func (v *Verifier) slice(st *State, x *ssa.Slice) Val {
	y := v.val(st, x.X)
	var lo, hi, mx string = "0", "", ""
	if x.Low != nil {
		lo = v.term(st, v.val(st, x.Low)).S
	}
	if x.High != nil {
		hi = v.term(st, v.val(st, x.High)).S
	}
	if x.Max != nil {
		mx = v.term(st, v.val(st, x.Max)).S
	}
	if e, ok := ptrElem(x.X.Type()); ok { // pointer to array
		at := e.Underlying().(*types.Array)
		a := v.deref(st, y)
		if a.Cell != "" && len(a.Path) == 0 && x.Low == nil && x.High == nil && x.Max == nil {
			return CellSlice{Cell: a.Cell, N: int(at.Len()), T: x.Type()}
		}
		if a.Cell == "" || len(a.Path) != 0 {
			panic(unsupported("slice of array pointer"))
		}
		y = v.term(st, CellSlice{Cell: a.Cell, N: int(at.Len()), T: types.NewSlice(at.Elem())})
	}
	if isString(x.X.Type()) {
		s := v.term(st, y).S
		if hi == "" {
			hi = "(str.len " + s + ")"
		}
		v.safe(st, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (str.len %s)))", lo, lo, hi, hi, s), "slice bounds", x.Pos())
		n := "(- " + hi + " " + lo + ")"
		if lo == "0" {
			n = hi
		}
		return Term{v.name("s", "String", fmt.Sprintf("(str.substr %s %s %s)", s, lo, n)), x.Type()}
	}
	s := v.term(st, y).S
	if hi == "" {
		hi = "(s-len " + s + ")"
	}
	cp := "(s-cap " + s + ")"
	if mx != "" {
		v.safe(st, fmt.Sprintf("(and (<= %s %s) (<= %s %s))", hi, mx, mx, cp), "slice bounds", x.Pos())
		cp = mx
	}
	v.safe(st, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, cp), "slice bounds", x.Pos())
	return v.subslice(s, lo, hi, cp, x.Type())
}

func (v *Verifier) subslice(s, lo, hi, cp string, t types.Type) Term {
	if lo == "0" {
		return Term{v.name("sl", "Slc", fmt.Sprintf("(mk-slc (s-loc %s) (s-off %s) %s %s)", s, s, hi, cp)), t}
	}
	return Term{v.name("sl", "Slc", fmt.Sprintf("(mk-slc (s-loc %s) (ite (= (s-loc %s) 0) 0 (+ (s-off %s) %s)) (- %s %s) (- %s %s))", s, s, s, lo, hi, lo, cp, lo)), t}
}

// ---- maps -----------------------------------------------------------------------------------

func (v *Verifier) mapKeys(t types.Type) (dom, val, ln, ks, vs string) {
	mt := t.Underlying().(*types.Map)
	ks, vs = v.so.sort(mt.Key()), v.so.sort(mt.Elem())
	base := "M|" + ks + "|" + vs
	return base + "|dom", base + "|val", base + "|len", ks, vs
}

func (v *Verifier) mapDom(st *State, m Term) string {
	dk, _, _, ks, _ := v.mapKeys(m.T)
	return "(select " + v.heapGet(st, dk, arr("(Array "+ks+" Bool)")) + " " + m.S + ")"
}

func (v *Verifier) mapVal(st *State, m Term) string {
	_, vk, _, ks, vs := v.mapKeys(m.T)
	return "(select " + v.heapGet(st, vk, arr("(Array "+ks+" "+vs+")")) + " " + m.S + ")"
}

func (v *Verifier) mapLen(st *State, m Term) string {
	_, _, lk, _, _ := v.mapKeys(m.T)
	return "(select " + v.heapGet(st, lk, arr("Int")) + " " + m.S + ")"
}

// mapFacts states what relates the domain and the length of a map object.
func (v *Verifier) mapFacts(st *State, m Term, k string) {
	l := v.mapLen(st, m)
	v.sv.assert("(<= 0 " + l + ")")
	if k != "" {
		v.sv.assert("(=> (select " + v.mapDom(st, m) + " " + k + ") (< 0 " + l + "))")
	}
	v.sv.assert("(=> (= " + m.S + " 0) (= " + l + " 0))")
}

func (v *Verifier) lookup(st *State, x, idx Val, commaOk bool, pos token.Pos) Val {
	m := v.term(st, x)
	if isString(m.T) {
		i := v.term(st, idx).S
		v.safe(st, fmt.Sprintf("(and (<= 0 %s) (< %s (str.len %s)))", i, i, m.S), "string index", pos)
		return Term{v.name("b", "Int", fmt.Sprintf("(str.to_code (str.at %s %s))", m.S, i)), types.Typ[types.Byte]}
	}
	mt := m.T.Underlying().(*types.Map)
	k := v.ifaceKey(st, idx, mt.Key())
	ok := v.name("ok", "Bool", and("(not (= "+m.S+" 0))", "(select "+v.mapDom(st, m)+" "+k+")"))
	vs := v.so.sort(mt.Elem())
	raw := Term{"(select " + v.mapVal(st, m) + " " + k + ")", mt.Elem()}
	z := v.term(st, v.zero(mt.Elem()))
	r := Term{v.name("mv", vs, ite(ok, raw.S, z.S)), mt.Elem()}
	if v.pureDepth == 0 {
		v.sv.assert(v.wf(st, r))
	}
	if commaOk {
		return Tuple{r, Term{ok, types.Typ[types.Bool]}}
	}
	return r
}

func (v *Verifier) ifaceKey(st *State, x Val, kt types.Type) string {
	t := v.term(st, x)
	if isIface(kt) && !isIface(t.T) {
		t = v.term(st, Iface{Dyn: t.T, V: t, T: kt})
	}
	return t.S
}

func (v *Verifier) mapUpdate(st *State, x, key, val Val, pos token.Pos) {
	m := v.term(st, x)
	v.safe(st, "(not (= "+m.S+" 0))", "assignment to nil map", pos)
	mt := m.T.Underlying().(*types.Map)
	dk, vk, lk, ks, vs := v.mapKeys(m.T)
	k := v.ifaceKey(st, key, mt.Key())
	val = v.coerce(st, val, mt.Elem())
	d := v.heapGet(st, dk, arr("(Array "+ks+" Bool)"))
	vh := v.heapGet(st, vk, arr("(Array "+ks+" "+vs+")"))
	l := v.heapGet(st, lk, arr("Int"))
	v.mapFacts(st, m, k)
	had := "(select (select " + d + " " + m.S + ") " + k + ")"
	v.heapSet(st, lk, arr("Int"), fmt.Sprintf("(store %s %s (ite %s (select %s %s) (+ 1 (select %s %s))))", l, m.S, had, l, m.S, l, m.S))
	v.heapSet(st, dk, arr("(Array "+ks+" Bool)"), fmt.Sprintf("(store %s %s (store (select %s %s) %s true))", d, m.S, d, m.S, k))
	v.heapSet(st, vk, arr("(Array "+ks+" "+vs+")"), fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", vh, m.S, vh, m.S, k, v.term(st, val).S))
}

func (v *Verifier) coerce(st *State, x Val, t types.Type) Val {
	if isIface(t) {
		switch y := x.(type) {
		case Iface:
			return y
		case Term:
			if !isIface(y.T) {
				if isNilConst(y) && y.T == types.Typ[types.UntypedNil] {
					return v.zero(t)
				}
				return Iface{Dyn: y.T, V: y, T: t}
			}
			return y
		}
	}
	return x
}

func (v *Verifier) mapDelete(st *State, x, key Val) {
	m := v.term(st, x)
	mt := m.T.Underlying().(*types.Map)
	dk, _, lk, ks, _ := v.mapKeys(m.T)
	k := v.ifaceKey(st, key, mt.Key())
	d := v.heapGet(st, dk, arr("(Array "+ks+" Bool)"))
	l := v.heapGet(st, lk, arr("Int"))
	v.mapFacts(st, m, k)
	had := and("(not (= "+m.S+" 0))", "(select (select "+d+" "+m.S+") "+k+")")
	v.heapSet(st, lk, arr("Int"), fmt.Sprintf("(store %s %s (ite %s (- (select %s %s) 1) (select %s %s)))", l, m.S, had, l, m.S, l, m.S))
	v.heapSet(st, dk, arr("(Array "+ks+" Bool)"), fmt.Sprintf("(store %s %s (store (select %s %s) %s false))", d, m.S, d, m.S, k))
}

// decodeRune gives the first rune of a non-empty text and its width in bytes.
func (v *Verifier) decodeRune(ok, sub, b string) (r, w string) {
	r = v.name("r", "Int", fmt.Sprintf("(ite (< %s 128) %s (rune_at %s))", b, b, sub))
	w = v.name("w", "Int", fmt.Sprintf("(ite (< %s 128) 1 (rune_w %s))", b, sub))
	v.sv.assert(fmt.Sprintf("(=> %s (and (<= 0 %s) (< %s 256) (=> (>= %s 128) (and (<= 128 (rune_at %s)) (<= (rune_at %s) 1114111) (<= 1 (rune_w %s)) (<= (rune_w %s) 4) (<= (rune_w %s) (str.len %s))))))", ok, b, b, b, sub, sub, sub, sub, sub, sub))
	return r, w
}

func (v *Verifier) next(st *State, x *ssa.Next) Val {
	it := v.val(st, x.Iter).(Iter)
	c := st.cells[it.Cell]
	if isString(it.T) {
		s := v.term(st, it.X).S
		i := c.V.(Term).S
		ok := v.name("ok", "Bool", fmt.Sprintf("(< %s (str.len %s))", i, s))
		sub := v.name("sub", "String", fmt.Sprintf("(str.substr %s %s (- (str.len %s) %s))", s, i, s, i))
		r, w := v.decodeRune(ok, sub, fmt.Sprintf("(str.to_code (str.at %s %s))", s, i))
		n := *c
		n.V = Term{v.name("it", "Int", ite(ok, "(+ "+i+" "+w+")", i)), types.Typ[types.Int]}
		st.cells[it.Cell] = &n
		v.noteMod(st, "c:"+it.Cell)
		return Tuple{Term{ok, types.Typ[types.Bool]}, Term{i, types.Typ[types.Int]}, Term{r, types.Typ[types.Rune]}}
	}
	m := v.term(st, it.X)
	mt := m.T.Underlying().(*types.Map)
	ks, vs := v.so.sort(mt.Key()), v.so.sort(mt.Elem())
	ok := v.fresh("ok", "Bool")
	k := v.fresh("k", ks)
	vis := c.V.(Term).S
	dom := v.mapDom(st, m)
	v.sv.assert(imp(ok, and("(not (= "+m.S+" 0))", "(select "+dom+" "+k+")", "(not (select "+vis+" "+k+"))", v.wf(st, Term{k, mt.Key()}))))
	v.sv.assert(imp(not(ok), fmt.Sprintf("(forall ((kk %s)) (! (=> (and (not (= %s 0)) (select %s kk)) (select %s kk)) :pattern ((select %s kk)) :pattern ((select %s kk))))", ks, m.S, dom, vis, dom, vis)))
	val := Term{v.name("mv", vs, "(select "+v.mapVal(st, m)+" "+k+")"), mt.Elem()}
	v.sv.assert(imp(ok, v.wf(st, val)))
	n := *c
	gm := &ghostMap{mt.Key(), types.Typ[types.Bool]}
	n.V = Term{v.name("vis", v.so.sort(gm), ite(ok, "(store "+vis+" "+k+" true)", vis)), gm}
	st.cells[it.Cell] = &n
	// the number of keys visited so far, when the loop leaves the map as it is
	in := types.Typ[types.Int]
	card := func(a string) string { return v.uf("size", in, Term{a, gm}).S }
	v.sv.assert(and("(<= 0 "+card(vis)+")", imp(ok, "(= "+card(n.V.(Term).S)+" (+ 1 "+card(vis)+"))")))
	if mapKept(x, mt) {
		l := v.mapLen(st, m)
		v.sv.assert(ite(ok, "(< "+card(vis)+" "+l+")", imp("(not (= "+m.S+" 0))", "(= "+card(vis)+" "+l+")")))
	}
	v.noteMod(st, "c:"+it.Cell)
	return Tuple{Term{ok, types.Typ[types.Bool]}, Term{k, mt.Key()}, val}
}

// mapKept tells whether the loop that x drives has no instruction that could change a map of type mt.
func mapKept(x *ssa.Next, mt *types.Map) bool {
	reach := func(from *ssa.BasicBlock, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var rec func(b *ssa.BasicBlock) bool
		rec = func(b *ssa.BasicBlock) bool {
			for _, s := range b.Succs {
				if s == to {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if rec(s) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	for _, b := range x.Parent().Blocks {
		if b != x.Block() && !(reach(b, x.Block()) && reach(x.Block(), b)) {
			continue
		}
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.MapUpdate:
				if typeKey(y.Map.Type().Underlying()) == typeKey(mt) {
					return false
				}
			case ssa.CallInstruction:
				if bi, ok := y.Common().Value.(*ssa.Builtin); !ok || bi.Name() == "delete" || bi.Name() == "clear" {
					return false
				}
			}
		}
	}
	return true
}

// ---- type assertions ------------------------------------------------------------------------

func (v *Verifier) typeAssert(st *State, x *ssa.TypeAssert, k func(*State, Val)) {
	y := v.val(st, x.X)
	t := x.AssertedType
	fail := func(s *State) {
		if x.CommaOk {
			k(s, Tuple{v.zero(t), Term{"false", types.Typ[types.Bool]}})
			return
		}
		v.panics(s, "type assertion", x.Pos())
	}
	good := func(s *State, r Val) {
		if x.CommaOk {
			k(s, Tuple{r, Term{"true", types.Typ[types.Bool]}})
		} else {
			k(s, r)
		}
	}
	if i, ok := y.(Iface); ok {
		if i.Dyn == nil {
			fail(st)
			return
		}
		if isIface(t) {
			if types.Implements(i.Dyn, t.Underlying().(*types.Interface)) {
				good(st, Iface{Dyn: i.Dyn, V: i.V, T: t})
			} else {
				fail(st)
			}
			return
		}
		if types.Identical(i.Dyn, t) {
			good(st, i.V)
		} else {
			fail(st)
		}
		return
	}
	e := v.term(st, y).S
	if isIface(t) {
		if t.Underlying().(*types.Interface).NumMethods() == 0 {
			v.fork(st, "(not (= (i-typ "+e+") 0))", func(s *State) { good(s, Term{e, t}) }, fail, v.pos(x.Pos())+":nonnil")
			return
		}
		p := v.so.implPred(t)
		v.fork(st, "("+p+" (i-typ "+e+"))", func(s *State) { good(s, Term{e, t}) }, fail, v.pos(x.Pos())+":"+t.String())
		return
	}
	id := v.so.typeID(t)
	v.fork(st, fmt.Sprintf("(= (i-typ %s) %d)", e, id), func(s *State) {
		s2, fact := v.so.unbox(e, t)
		v.sv.assert(fact)
		r := Term{v.name("ub", v.so.sort(t), s2), t}
		v.sv.assert(v.wf(s, r))
		good(s, r)
	}, fail, v.pos(x.Pos())+":"+types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}
