package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *Verifier) assume(what string) { v.assumed[what] = true }

func (v *Verifier) callOperands(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fv Val
	if c.IsInvoke() {
		fv = v.val(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = v.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, v.val(st, a))
	}
	return fv, args
}

func resultVal(vals []Val) Val {
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

func (v *Verifier) doCall(st *State, c *ssa.CallCommon, fv Val, args []Val, ins ssa.Instruction, rt types.Type, k func(*State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v.builtin(st, b, c, args, ins, rt, k)
		return
	}
	if rt == nil {
		rt = c.Signature().Results()
	}
	if c.IsInvoke() {
		if i, ok := fv.(Iface); ok {
			if i.Dyn == nil {
				v.panics(st, "method call on nil interface", ins.Pos())
				return
			}
			fn := v.prog.prog.LookupMethod(i.Dyn, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				panic(unsupported("no method " + c.Method.Name() + " on " + i.Dyn.String()))
			}
			v.callFn(st, fn, nil, append([]Val{i.V}, args...), ins, rt, k)
			return
		}
		v.invoke(st, c, fv, args, ins, rt, k)
		return
	}
	switch f := fv.(type) {
	case Closure:
		v.callFn(st, f.Fn, f.Bind, args, ins, rt, k)
		return
	case Term:
		if cl, ok := v.closureID[f.S]; ok {
			v.callFn(st, cl.Fn, cl.Bind, args, ins, rt, k)
			return
		}
		v.safe(st, "(not (= "+f.S+" 0))", "call of nil function", ins.Pos())
		key := "functype:"
		if n, ok := f.T.(*types.Named); ok {
			key += n.Obj().Name()
			if ct := v.specs.Contracts[n.Obj().Pkg().Path()+"."+key]; ct != nil {
				v.applyContract(st, ct, append([]Val{f}, args...), paramTypes(c.Signature(), f.T), c.Signature(), ins, k)
				return
			}
		}
		if p, ok := c.Value.(*ssa.Parameter); ok && v.c != nil {
			if ct := v.specs.Contracts[v.c.Pkg+".param:"+p.Name()]; ct != nil {
				v.applyContract(st, ct, append([]Val{f}, args...), paramTypes(c.Signature(), f.T), c.Signature(), ins, k)
				return
			}
		}
		if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if n, ok := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Named); ok {
					n = n.Origin()
					fk := n.Obj().Pkg().Path() + ".field:" + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
					if ct := v.specs.Contracts[fk]; ct != nil {
						v.applyContract(st, ct, append([]Val{f}, args...), paramTypes(c.Signature(), f.T), c.Signature(), ins, k)
						return
					}
				}
			}
		}
		if ct := v.specs.Contracts[v.fnPkg()+".functype:"+sigKey(c.Signature())]; ct != nil {
			v.applyContract(st, ct, append([]Val{f}, args...), paramTypes(c.Signature(), f.T), c.Signature(), ins, k)
			return
		}
		if p, ok := c.Value.(*ssa.Phi); ok && v.c != nil && p.Comment != "" {
			if ct := v.specs.Contracts[v.c.Pkg+".param:"+p.Comment]; ct != nil {
				v.applyContract(st, ct, append([]Val{f}, args...), paramTypes(c.Signature(), f.T), c.Signature(), ins, k)
				return
			}
		}
		v.unknownCall(st, "call of unknown function value "+typeKey(f.T), args, rt, true, k)
		return
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

// fnPkg is the package of the function being verified.
func (v *Verifier) fnPkg() string {
	if v.c != nil {
		return v.c.Pkg
	}
	return ""
}

// sigKey names a function type in contracts: every other character is written _
func sigKey(s *types.Signature) string {
	return nonIdent.ReplaceAllString(sigText(s), "_")
}

var nonIdent = regexp.MustCompile(`[^A-Za-z0-9]+`)

func sigText(s *types.Signature) string {
	return strings.ReplaceAll(types.TypeString(s, func(p *types.Package) string { return p.Name() }), " ", "")
}

func paramTypes(s *types.Signature, self types.Type) []types.Type {
	var ts []types.Type
	if self != nil {
		ts = append(ts, self)
	}
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

func (v *Verifier) invoke(st *State, c *ssa.CallCommon, fv Val, args []Val, ins ssa.Instruction, rt types.Type, k func(*State, Val)) {
	recv := v.term(st, fv)
	v.safe(st, "(not (= (i-typ "+recv.S+") 0))", "method call on nil interface", ins.Pos())
	it := c.Value.Type()
	var ct *Contract
	if n, ok := types.Unalias(it).(*types.Named); ok {
		pkg := ""
		if n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
		ct = v.specs.Contracts[pkg+"."+n.Obj().Name()+"."+c.Method.Name()]
	}
	if _, ok := it.(*types.Interface); ok { // an interface without a name, which the specification names
		for n, a := range v.specs.Types {
			if c := v.specs.Contracts[a.Pkg+"."+n+"."+c.Method.Name()]; c != nil {
				if t := v.prog.trySpecType(a.Pkg, n); t != nil && types.Identical(t, it) {
					ct = c
				}
			}
		}
	}
	if ct == nil && c.Method.Name() == "Error" {
		k(st, v.uf("error_text", types.Typ[types.String], recv))
		v.assume("error.Error() is a function of the error value")
		return
	}
	if ct != nil {
		v.applyContract(st, ct, append([]Val{fv}, args...), paramTypes(c.Signature(), it), c.Signature(), ins, k)
		return
	}
	v.unknownCall(st, "interface call "+types.TypeString(it, func(p *types.Package) string { return p.Name() })+"."+c.Method.Name(), args, rt, true, k)
}

// unknownCall models a call about which nothing is known.
func (v *Verifier) unknownCall(st *State, what string, args []Val, rt types.Type, havoc bool, k func(*State, Val)) {
	for _, a := range args {
		if ad, ok := a.(Addr); ok && ad.Cell != "" && len(ad.Path) == 0 {
			v.escape(st, ad.Cell)
		} else if _, ok := a.(Tuple); !ok {
			v.escapeAll(st, a)
		}
	}
	if havoc {
		v.havocAll(st)
		v.assume(what + ": arbitrary result and arbitrary effect on the heap (no assumption)")
	} else {
		v.assume(what + ": result arbitrary; assumed not to change memory of the module's objects")
		na := v.fresh("alloc", "Int")
		v.sv.assert("(<= " + st.alloc + " " + na + ")")
		st.alloc = na
		v.noteMod(st, "alloc")
	}
	k(st, v.freshResults(st, rt))
}

func (v *Verifier) escapeAll(st *State, a Val) {
	switch y := a.(type) {
	case CellSlice:
		if c := st.cells[y.Cell]; c != nil && c.Escaped == "" {
			if av, ok := c.V.(ArrayVal); ok {
				for _, e := range av.E {
					v.escapeAll(st, e)
				}
			}
		}
	case Iface:
		if y.Dyn != nil {
			v.escapeAll(st, y.V)
		}
	case Addr:
		if y.Cell != "" && len(y.Path) == 0 {
			v.escape(st, y.Cell)
		}
	case Closure:
		for _, b := range y.Bind {
			v.escapeAll(st, b)
		}
	}
}

func (v *Verifier) freshResults(st *State, rt types.Type) Val {
	if rt == nil {
		return nil
	}
	if tp, ok := rt.(*types.Tuple); ok {
		switch tp.Len() {
		case 0:
			return nil
		case 1:
			return v.freshVal(st, "r", tp.At(0).Type())
		}
	}
	return v.freshVal(st, "r", rt)
}

func (v *Verifier) havocAll(st *State) {
	na := v.fresh("alloc", "Int")
	v.sv.assert("(<= " + st.alloc + " " + na + ")")
	st.alloc = na
	v.noteMod(st, "alloc")
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "G|") || k == "#havoc" { // ghost state changes only by contract
			continue
		}
		if strings.HasPrefix(k, "GV|") {
			continue // package variables: see assumption list
		}
		v.havocKey(st, k)
	}
	st.heap["#havoc"] = na
	v.noteMod(st, "h:#havoc|Int")
}

func (v *Verifier) heapSort(key string) string {
	// the sort of the declared constant behind a heap key
	n := "H0_" + v.so.ident("heap:"+key)
	if d, ok := v.sv.byN[n]; ok {
		t := strings.TrimSuffix(strings.TrimPrefix(d.text, "(declare-const "+n+" "), ")")
		return t
	}
	panic("no sort for heap key " + key)
}

func (v *Verifier) havocKey(st *State, k string) {
	srt := v.heapSort(k)
	n := v.fresh("Hh", srt)
	st.heap[k] = n
	v.noteMod(st, "h:"+k+"|"+srt)
}

// ---- static calls ---------------------------------------------------------------------------

func (v *Verifier) callFn(st *State, fn *ssa.Function, bind, args []Val, ins ssa.Instruction, rt types.Type, k func(*State, Val)) {
	ct := v.specs.lookup(fn)
	if ct != nil && !ct.Inline {
		v.callees[ct.name()] = true
		v.applyContract(st, ct, args, paramTypes2(fn), fn.Signature, ins, k)
		return
	}
	name := fn.RelString(nil)
	if len(fn.Blocks) == 0 {
		v.stdCall(st, fn, name, args, ins, rt, k)
		return
	}
	own := v.prog.isOwn(fn)
	if !own && !v.prog.inlineStd(fn) {
		v.stdCall(st, fn, name, args, ins, rt, k)
		return
	}
	depth := st.frame.depth + 1
	for f := st.frame; f != nil; f = f.caller {
		if f.fn == fn {
			v.unknownCall(st, "recursive call of "+name, args, rt, true, k)
			return
		}
	}
	if depth > v.opt.MaxDepth {
		v.unknownCall(st, "call of "+name+" (inlining depth exceeded)", args, rt, true, k)
		return
	}
	if own {
		v.inlined[name] = true
	}
	v.pushFrame(st, fn, bind, args, st.frame.key+"/"+insKey(ins), depth, ct, func(s *State, vals []Val) {
		k(s, resultVal(vals))
	})
	v.enterBlock(st, fn.Blocks[0], nil)
}

func insKey(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	if val, ok := ins.(ssa.Value); ok {
		return val.Name()
	}
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("b%di%d", b.Index, i)
		}
	}
	return "?"
}

func (v *Verifier) pushFrame(st *State, fn *ssa.Function, bind, args []Val, key string, depth int, ct *Contract, ret func(*State, []Val)) {
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, caller: st.frame, key: key, depth: depth, onRet: ret, spec: ct}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	st.frame = f
}

func paramTypes2(fn *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(fn.Params) == 0 {
		return paramTypes(fn.Signature, nil)
	}
	return ts
}

// stdCall models a dependency without a contract.
func (v *Verifier) stdCall(st *State, fn *ssa.Function, name string, args []Val, ins ssa.Instruction, rt types.Type, k func(*State, Val)) {
	if v.primitive(st, name, args, fn, k) {
		return
	}
	v.unknownCall(st, "dependency "+name, args, rt, false, k)
}

// ---- contracts at call sites ----------------------------------------------------------------

func (v *Verifier) applyContract(st *State, ct *Contract, args []Val, pts []types.Type, sig *types.Signature, ins ssa.Instruction, k func(*State, Val)) {
	if ct.Trusted {
		v.assume("contract of " + ct.name() + " (" + ct.File + ")" + ifs(ct.Why != "", ": "+ct.Why))
	}
	names := map[string]Val{}
	for i, p := range ct.Params {
		if i < len(args) {
			if p != "_" && i < len(pts) {
				if isIface(pts[i]) {
					names[p] = v.coerce(st, args[i], pts[i])
				} else {
					names[p] = args[i]
				}
			}
		}
	}
	env := &specEnv{v: v, st: st, names: names, pkg: ct.Pkg}
	for _, r := range ct.Requires {
		if r.Label == "def" {
			continue // the definition of a specification function over the structure at hand
		}
		if ct.Trusted && len(r.Props) > 0 && v.opt.Prop != "" && !hasProp(r.Props, v.opt.Prop) {
			continue // an obligation on the callers that only another property speaks of
		}
		g := env.boolean(r.E)
		if !v.infer {
			v.oblige(st, "precondition("+ct.name()+")", r.Text, g, nil, ins.Pos())
		}
		v.sv.assert(g)
	}
	if v.c != nil && v.c.NoPanic && !ct.NoPanic && !ct.Trusted && !v.infer {
		v.oblige(st, "nopanic", "callee "+ct.name()+" is not proved panic-free", "false", nil, ins.Pos())
	}
	for _, a := range args {
		v.escapeForCall(st, a)
	}
	// After escaping, snapshot the pre-state.
	pre := st.snapshot()
	if ct.ModAll {
		v.havocAll(st)
	} else if !ct.Pure {
		na := v.fresh("alloc", "Int")
		v.sv.assert("(<= " + st.alloc + " " + na + ")")
		st.alloc = na
		v.noteMod(st, "alloc")
	}
	menv := &specEnv{v: v, st: pre, names: names, pkg: ct.Pkg}
	for _, m := range ct.Modifies {
		v.havocPlace(st, menv, m)
	}
	var res Val
	n := sig.Results().Len()
	var outs []Val
	for i := 0; i < n; i++ {
		outs = append(outs, v.freshVal(st, "r", sig.Results().At(i).Type()))
	}
	if n == 1 {
		res = outs[0]
	} else if n > 1 {
		res = Tuple(outs)
	}
	post := map[string]Val{}
	for a, b := range names {
		post[a] = b
	}
	for i, r := range ct.Results {
		if i < len(outs) {
			post[r] = outs[i]
		}
	}
	if n >= 1 {
		post["result"] = outs[0]
	}
	penv := &specEnv{v: v, st: st, old: pre, names: post, pkg: ct.Pkg, assuming: true}
	for _, e := range ct.Ensures {
		if !v.uses(e) || strings.HasPrefix(e.Label, "local") {
			continue
		}
		v.sv.assert(penv.boolean(e.E))
	}
	v.ghostEffects(st, ct, penv)
	k(st, res)
}

// ghostEffects applies the ghost updates a contract attaches to the end of a function.
func (v *Verifier) ghostEffects(st *State, ct *Contract, env *specEnv) {
	type upd struct{ g, x string }
	var us []upd
	for _, e := range ct.Effects {
		us = append(us, upd{e.Label, v.term(st, env.eval(e.E)).S})
	}
	for _, u := range us {
		v.ghostGet(st, u.g)
		srt := v.so.sort(v.ghostType(u.g))
		st.heap["G|"+u.g] = v.name("G_"+u.g, srt, u.x)
		v.noteMod(st, "G:"+u.g)
	}
}

func ifs(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

// escapeForCall keeps local cells local when only their address is passed to a contract whose
// frame is known; contracts name the places they modify.
func (v *Verifier) escapeForCall(st *State, a Val) {
	switch y := a.(type) {
	case Addr:
		_ = y
	default:
		v.escapeAll(st, a)
	}
}

func (st *State) snapshot() *State {
	n := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: st.alloc, frame: st.frame}
	for k, x := range st.heap {
		n.heap[k] = x
	}
	for k, x := range st.cells {
		n.cells[k] = x
	}
	return n
}

// havocPlace forgets the contents of one place named in a modifies clause.
func (v *Verifier) havocPlace(st *State, env *specEnv, m string) {
	if strings.HasPrefix(m, "ghost ") {
		g := strings.TrimSpace(m[6:])
		key := "G|" + g
		v.ghostGet(st, g)
		srt := v.so.sort(v.ghostType(g))
		st.heap[key] = v.fresh("G_"+g, srt)
		v.noteMod(st, "G:"+g)
		return
	}
	if strings.HasPrefix(m, "field ") {
		for _, kt := range v.fieldKeys(env.pkg, m[6:]) {
			v.heapGet(st, kt[0], arr(kt[1]))
			v.heapSet(st, kt[0], arr(kt[1]), v.fresh("hf", arr(kt[1])))
		}
		return
	}
	if strings.HasPrefix(m, "map ") {
		t := v.term(env.st, env.eval(parseExprAt(m[4:], "modifies", 0)))
		dk, vk, lk, ks, vs := v.mapKeys(t.T)
		for _, kk := range [][2]string{{dk, "(Array " + ks + " Bool)"}, {vk, "(Array " + ks + " " + vs + ")"}, {lk, "Int"}} {
			h := v.heapGet(st, kk[0], arr(kk[1]))
			f := v.fresh("hv", kk[1])
			v.heapSet(st, kk[0], arr(kk[1]), "(store "+h+" "+t.S+" "+f+")")
		}
		v.sv.assert("(<= 0 " + v.mapLen(st, t) + ")")
		return
	}
	if strings.HasPrefix(m, "global ") {
		g := v.prog.global(env.pkg, strings.TrimSpace(m[7:]))
		t, _ := ptrElem(g.Type())
		x := v.freshVal(st, "hv", t)
		v.store(st, Addr{Global: g, Root: t, T: t}, x)
		return
	}
	if strings.HasSuffix(m, "[*]") {
		t := v.term(env.st, env.eval(parseExprAt(strings.TrimSuffix(m, "[*]"), "modifies", 0)))
		e := t.T.Underlying().(*types.Slice).Elem()
		srt := v.so.sort(e)
		key := "S|" + srt
		h := v.heapGet(st, key, arr(arr(srt)))
		f := v.fresh("hv", arr(srt))
		v.heapSet(st, key, arr(arr(srt)), "(store "+h+" (s-loc "+t.S+") "+f+")")
		return
	}
	if strings.HasSuffix(m, ".*") || strings.HasPrefix(m, "*") {
		p := env.eval(parseExprAt(strings.TrimPrefix(strings.TrimSuffix(m, ".*"), "*"), "modifies", 0))
		a := v.deref(st, p)
		v.store(st, a, v.freshDeep(st, a.T))
		return
	}
	ad := env.address(parseExprAt(m, "modifies", 0))
	v.store(st, ad, v.freshDeep(st, ad.T))
}

// fieldKeys resolves "T.f" to the heap keys of that field of every object.
func (v *Verifier) fieldKeys(pkg, m string) [][2]string {
	tn, fn, _ := strings.Cut(strings.TrimSpace(m), ".")
	t := v.prog.specType(pkg, tn)
	s, _ := structOf(t)
	if s == nil {
		panic(unsupported("no struct " + tn))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == fn {
			var out [][2]string
			var rec func(ft types.Type, path []int)
			rec = func(ft types.Type, path []int) {
				if fs, ok := structOf(ft); ok {
					for j := 0; j < fs.NumFields(); j++ {
						rec(fs.Field(j).Type(), append(append([]int(nil), path...), j))
					}
					return
				}
				out = append(out, [2]string{fieldKey(t, path), v.so.sort(ft)})
			}
			rec(s.Field(i).Type(), []int{i})
			return out
		}
	}
	panic(unsupported("no field " + m))
}

func (v *Verifier) freshDeep(st *State, t types.Type) Val {
	if s, ok := structOf(t); ok {
		sv := StructVal{T: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.F = append(sv.F, v.freshDeep(st, s.Field(i).Type()))
		}
		return sv
	}
	return v.freshVal(st, "hv", t)
}

// ---- builtins -------------------------------------------------------------------------------

func (v *Verifier) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, ins ssa.Instruction, rt types.Type, k func(*State, Val)) {
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		if cs, ok := args[0].(CellSlice); ok {
			k(st, Term{fmt.Sprint(cs.N), intT})
			return
		}
		t := v.term(st, args[0])
		k(st, Term{v.lenOf(st, t), intT})
	case "cap":
		t := v.term(st, args[0])
		k(st, Term{"(s-cap " + t.S + ")", intT})
	case "append":
		k(st, v.appendTo(st, args[0], args[1], rt))
	case "copy":
		k(st, v.copySlice(st, args[0], args[1]))
	case "delete":
		v.mapDelete(st, args[0], args[1])
		k(st, nil)
	case "panic":
		v.panics(st, "explicit panic", ins.Pos())
	case "print", "println":
		k(st, nil)
	case "min", "max":
		r := v.term(st, args[0])
		for _, a := range args[1:] {
			x := v.term(st, a)
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			if isInt(r.T) {
				r = Term{v.name("mm", "Int", fmt.Sprintf("(ite (%s %s %s) %s %s)", op, r.S, x.S, r.S, x.S)), rt}
			} else {
				r = v.uf(b.Name(), rt, r, x)
			}
		}
		k(st, r)
	case "ssa:wrapnilchk":
		v.nilCheck(st, args[0], ins.Pos())
		k(st, args[0])
	case "clear":
		panic(unsupported("clear"))
	case "recover":
		k(st, v.zero(types.Universe.Lookup("any").Type()))
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func (v *Verifier) lenOf(st *State, t Term) string {
	switch u := t.T.Underlying().(type) {
	case *types.Slice:
		return "(s-len " + t.S + ")"
	case *types.Map:
		v.mapFacts(st, t, "")
		return v.mapLen(st, t)
	case *types.Array:
		return fmt.Sprint(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return fmt.Sprint(a.Len())
		}
	case *types.Chan:
		return v.fresh("len", "Int")
	}
	if isString(t.T) {
		return "(str.len " + t.S + ")"
	}
	panic(unsupported("len of " + t.T.String()))
}

func (v *Verifier) appendTo(st *State, a, b Val, rt types.Type) Val {
	s := v.term(st, a)
	elem := rt.Underlying().(*types.Slice).Elem()
	srt := v.so.sort(elem)
	e := v.so.eltFn(elem)
	key := "S|" + srt
	var n string
	var xs []string
	var tail Term
	lit := false
	if cs, ok := b.(CellSlice); ok && st.cells[cs.Cell].Escaped == "" {
		if av, ok := st.cells[cs.Cell].V.(ArrayVal); ok {
			lit = true
			n = fmt.Sprint(cs.N)
			for _, x := range av.E {
				xs = append(xs, v.term(st, v.coerce(st, x, elem)).S)
			}
		}
	}
	if !lit {
		if isNilConst(b) {
			return Term{s.S, rt}
		}
		tail = v.term(st, b)
		if isString(tail.T) {
			n = "(str.len " + tail.S + ")"
		} else {
			n = "(s-len " + tail.S + ")"
		}
	}
	h := v.heapGet(st, key, arr(arr(srt)))
	r := v.fresh("app", "Slc")
	C := v.fresh("AC", arr(srt))
	inpl := v.fresh("inpl", "Bool")
	A := "(select " + h + " (s-loc " + s.S + "))"
	v.sv.assert(fmt.Sprintf("(= %s (<= (+ (s-len %s) %s) (s-cap %s)))", inpl, s.S, n, s.S))
	v.sv.assert(fmt.Sprintf("(= (s-len %s) (+ (s-len %s) %s))", r, s.S, n))
	v.sv.assert(fmt.Sprintf("(= (s-loc %s) (ite %s (s-loc %s) %s))", r, inpl, s.S, st.alloc))
	v.sv.assert(fmt.Sprintf("(= (s-off %s) (ite %s (s-off %s) 0))", r, inpl, s.S))
	v.sv.assert(fmt.Sprintf("(ite %s (= (s-cap %s) (s-cap %s)) (<= (s-len %s) (s-cap %s)))", inpl, r, s.S, r, r))
	v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (s-len %s))) (= (%s %s (s-off %s) j) (%s %s (s-off %s) j))) :pattern ((%s %s (s-off %s) j)) :pattern ((%s %s (s-off %s) j))))",
		s.S, e, C, r, e, A, s.S, e, C, r, e, A, s.S))
	v.sv.assert(fmt.Sprintf("(=> %s (forall ((p Int)) (! (=> (or (< p (+ (s-off %s) (s-len %s))) (<= (+ (s-off %s) (s-len %s)) p)) (= (select %s p) (select %s p))) :pattern ((select %s p)))))", inpl, s.S, s.S, s.S, r, C, A, C))
	if lit {
		for i, x := range xs {
			v.sv.assert(fmt.Sprintf("(= (%s %s (s-off %s) (+ (s-len %s) %d)) %s)", e, C, r, s.S, i, x))
		}
		if len(xs) == 1 {
			v.sv.assert(fmt.Sprintf("(= (%s %s (s-off %s) (s-len %s)) %s)", e, C, r, s.S, xs[0]))
		}
	} else if isString(tail.T) {
		v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= (s-len %s) j) (< j (s-len %s))) (= (%s %s (s-off %s) j) (str.to_code (str.at %s (- j (s-len %s)))))) :pattern ((%s %s (s-off %s) j))))",
			s.S, r, e, C, r, tail.S, s.S, e, C, r))
	} else {
		B := "(select " + h + " (s-loc " + tail.S + "))"
		v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= (s-len %s) j) (< j (s-len %s))) (= (%s %s (s-off %s) j) (%s %s (s-off %s) (- j (s-len %s))))) :pattern ((%s %s (s-off %s) j))))",
			s.S, r, e, C, r, e, B, tail.S, s.S, e, C, r))
		v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (s-len %s))) (= (%s %s (s-off %s) (+ (s-len %s) j)) (%s %s (s-off %s) j))) :pattern ((%s %s (s-off %s) j))))",
			tail.S, e, C, r, s.S, e, B, tail.S, e, B, tail.S))
	}
	v.heapSet(st, key, arr(arr(srt)), fmt.Sprintf("(store %s (s-loc %s) %s)", h, r, C))
	st.alloc = v.name("alloc", "Int", fmt.Sprintf("(ite %s %s (+ %s 1))", inpl, st.alloc, st.alloc))
	v.noteMod(st, "alloc")
	return Term{r, rt}
}

func (v *Verifier) copySlice(st *State, d, s Val) Val {
	D := v.term(st, d)
	S := v.term(st, s)
	elem := D.T.Underlying().(*types.Slice).Elem()
	srt := v.so.sort(elem)
	e := v.so.eltFn(elem)
	key := "S|" + srt
	h := v.heapGet(st, key, arr(arr(srt)))
	sl := "(s-len " + S.S + ")"
	if isString(S.T) {
		sl = "(str.len " + S.S + ")"
	}
	n := v.name("n", "Int", fmt.Sprintf("(ite (<= %s (s-len %s)) %s (s-len %s))", sl, D.S, sl, D.S))
	C := v.fresh("CC", arr(srt))
	A := "(select " + h + " (s-loc " + D.S + "))"
	src := func(j string) string {
		if isString(S.T) {
			return "(str.to_code (str.at " + S.S + " " + j + "))"
		}
		return "(" + e + " (select " + h + " (s-loc " + S.S + ")) (s-off " + S.S + ") " + j + ")"
	}
	v.sv.assert(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (%s %s (s-off %s) j) %s)) :pattern ((%s %s (s-off %s) j))))", n, e, C, D.S, src("j"), e, C, D.S))
	v.sv.assert(fmt.Sprintf("(forall ((p Int)) (! (=> (or (< p (s-off %s)) (<= (+ (s-off %s) %s) p)) (= (select %s p) (select %s p))) :pattern ((select %s p))))", D.S, D.S, n, C, A, C))
	v.heapSet(st, key, arr(arr(srt)), fmt.Sprintf("(store %s (s-loc %s) %s)", h, D.S, C))
	return Term{n, types.Typ[types.Int]}
}

// primitive gives exact meanings to a few dependency functions through the SMT string theory.
func (v *Verifier) primitive(st *State, name string, args []Val, fn *ssa.Function, k func(*State, Val)) bool {
	s := func(i int) string { return v.term(st, args[i]).S }
	b := types.Typ[types.Bool]
	str := types.Typ[types.String]
	in := types.Typ[types.Int]
	use := func() { v.assume("meaning of " + name + " given by the SMT string theory") }
	switch name {
	case "strings.HasPrefix":
		use()
		k(st, Term{"(str.prefixof " + s(1) + " " + s(0) + ")", b})
	case "strings.HasSuffix":
		use()
		k(st, Term{"(str.suffixof " + s(1) + " " + s(0) + ")", b})
	case "strings.Contains":
		use()
		k(st, Term{"(str.contains " + s(0) + " " + s(1) + ")", b})
	case "strings.Index":
		use()
		k(st, Term{v.name("ix", "Int", "(str.indexof "+s(0)+" "+s(1)+" 0)"), in})
	case "strings.IndexRune", "strings.IndexByte":
		use()
		c := s(1)
		if name == "strings.IndexByte" {
			k(st, Term{v.name("ix", "Int", "(str.indexof "+s(0)+" (str.from_code "+c+") 0)"), in})
		} else {
			k(st, Term{v.name("ix", "Int", "(str.indexof "+s(0)+" "+v.runeStr(c)+" 0)"), in})
		}
	case "strings.TrimPrefix":
		use()
		k(st, Term{v.name("s", "String", fmt.Sprintf("(ite (str.prefixof %s %s) (str.substr %s (str.len %s) (- (str.len %s) (str.len %s))) %s)", s(1), s(0), s(0), s(1), s(0), s(1), s(0))), str})
	case "strings.TrimSuffix":
		use()
		k(st, Term{v.name("s", "String", fmt.Sprintf("(ite (str.suffixof %s %s) (str.substr %s 0 (- (str.len %s) (str.len %s))) %s)", s(1), s(0), s(0), s(0), s(1), s(0))), str})
	case "strings.Cut":
		use()
		ix := v.name("ix", "Int", "(str.indexof "+s(0)+" "+s(1)+" 0)")
		found := "(>= " + ix + " 0)"
		k(st, Tuple{
			Term{v.name("s", "String", ite(found, "(str.substr "+s(0)+" 0 "+ix+")", s(0))), str},
			Term{v.name("s", "String", ite(found, fmt.Sprintf("(str.substr %s (+ %s (str.len %s)) (- (str.len %s) (+ %s (str.len %s))))", s(0), ix, s(1), s(0), ix, s(1)), `""`)), str},
			Term{found, b}})
	case "strings.CutPrefix":
		use()
		found := "(str.prefixof " + s(1) + " " + s(0) + ")"
		k(st, Tuple{
			Term{v.name("s", "String", ite(found, fmt.Sprintf("(str.substr %s (str.len %s) (- (str.len %s) (str.len %s)))", s(0), s(1), s(0), s(1)), s(0))), str},
			Term{found, b}})
	case "strings.ReplaceAll":
		use()
		k(st, Term{v.name("s", "String", fmt.Sprintf("(go_replace_all %s %s %s)", s(0), s(1), s(2))), str})
	case "maps.Copy":
		v.assume("maps.Copy sets every entry of its second map in the first")
		D, S := v.term(st, args[0]), v.term(st, args[1])
		v.mapFacts(st, S, "")
		v.safe(st, "(or (not (= "+D.S+" 0)) (= "+v.mapLen(st, S)+" 0))", "assignment to nil map", token.NoPos)
		dk, vk, lk, ks, vs := v.mapKeys(D.T)
		as := "(Array " + ks + " Bool)"
		avs := "(Array " + ks + " " + vs + ")"
		d, vh, l := v.heapGet(st, dk, arr(as)), v.heapGet(st, vk, arr(avs)), v.heapGet(st, lk, arr("Int"))
		nd, nv, nl := v.fresh("md", as), v.fresh("mv", avs), v.fresh("ml", "Int")
		sd := "(and (not (= " + S.S + " 0)) (select (select " + d + " " + S.S + ") k))"
		v.sv.assert(fmt.Sprintf("(forall ((k %s)) (! (= (select %s k) (or (select (select %s %s) k) %s)) :pattern ((select %s k))))", ks, nd, d, D.S, sd, nd))
		v.sv.assert(fmt.Sprintf("(forall ((k %s)) (! (= (select %s k) (ite %s (select (select %s %s) k) (select (select %s %s) k))) :pattern ((select %s k))))", ks, nv, sd, vh, S.S, vh, D.S, nv))
		v.sv.assert(fmt.Sprintf("(>= %s (select %s %s))", nl, l, D.S))
		v.heapSet(st, dk, arr(as), fmt.Sprintf("(store %s %s %s)", d, D.S, nd))
		v.heapSet(st, vk, arr(avs), fmt.Sprintf("(store %s %s %s)", vh, D.S, nv))
		v.heapSet(st, lk, arr("Int"), fmt.Sprintf("(store %s %s %s)", l, D.S, nl))
		k(st, nil)
	case "unicode/utf8.DecodeRuneInString":
		use()
		x := s(0)
		ok := v.name("ok", "Bool", "(< 0 (str.len "+x+"))")
		r, w := v.decodeRune(ok, x, "(str.to_code (str.at "+x+" 0))")
		k(st, Tuple{Term{v.name("r", "Int", ite(ok, r, "65533")), types.Typ[types.Rune]}, Term{v.name("w", "Int", ite(ok, w, "0")), in}})
	case "errors.New":
		v.assume("errors.New, fmt.Errorf return a non-nil error")
		r := v.freshVal(st, "err", fn.Signature.Results().At(0).Type()).(Term)
		v.sv.assert("(not (= (i-typ " + r.S + ") 0))")
		v.notParseError(st, r)
		k(st, r)
	case "fmt.Errorf":
		v.assume("errors.New, fmt.Errorf return a non-nil error")
		r := v.freshVal(st, "err", fn.Signature.Results().At(0).Type()).(Term)
		v.sv.assert("(not (= (i-typ " + r.S + ") 0))")
		v.notParseError(st, r)
		k(st, r)
	default:
		return false
	}
	return true
}

// notParseError records that an error built by the standard library has none of the module's
// error types.
func (v *Verifier) notParseError(st *State, r Term) {
	ts := v.prog.errorTypes()
	if sp := v.prog.pkg("strconv"); sp != nil {
		if o := sp.Pkg.Scope().Lookup("NumError"); o != nil {
			ts = append(ts[:len(ts):len(ts)], types.NewPointer(o.Type()))
		}
	}
	for _, t := range ts {
		v.sv.assert(fmt.Sprintf("(not (= (i-typ %s) %d))", r.S, v.so.typeID(t)))
	}
}

var _ = token.NoPos

// uses reports whether the function under contract takes a fact that is reserved for those that ask
// for it (opt use NAME,NAME).
func (v *Verifier) uses(c *Clause) bool {
	return c.Use == "" || v.c != nil && strings.Contains(","+v.c.Opts["use"]+",", ","+c.Use+",")
}
