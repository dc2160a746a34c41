// vcgen generates verification conditions from the go/ssa form of the repository's current source
// and the contracts in a directory of .spec files, and discharges them with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Options struct {
	Repo, Specs, Dump                          string
	Prop                                       string
	FeasMS, QuickMS, InferMS, Mirrors, MaxFail int
	SlowS                                      int
	MaxPaths, MaxDepth                         int
	Verbose, Trace, Trace2                     bool
	Jobs                                       int
}

type Program struct {
	prog       *ssa.Program
	fset       *token.FileSet
	module     string
	pkgs       map[string]*ssa.Package
	specs      *Specs
	mu         sync.Mutex
	rpoCache   map[*ssa.Function]map[*ssa.BasicBlock]int
	reachCache map[*ssa.BasicBlock]bool
	loopCache  map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	typeCache  map[string]types.Type
	errTypes   []types.Type
	byKey      map[string]*ssa.Function
	typeArgs map[string]types.Type
	stored     map[*ssa.Global]bool // stored to outside package initialisation
	initVal    map[*ssa.Global]ssa.Value
}

func loadProgram(repo string, specs *Specs) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if n := packages.PrintErrors(ps); n > 0 {
		return nil, fmt.Errorf("%d errors loading packages", n)
	}
	prog, roots := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, specs: specs,
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, typeCache: map[string]types.Type{},
		byKey: map[string]*ssa.Function{}, stored: map[*ssa.Global]bool{}, initVal: map[*ssa.Global]ssa.Value{}}
	for _, r := range roots {
		if r != nil && (p.module == "" || len(r.Pkg.Path()) < len(p.module)) {
			p.module = r.Pkg.Path()
		}
	}
	for _, x := range prog.AllPackages() {
		p.pkgs[x.Pkg.Path()] = x
	}
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for _, x := range prog.AllPackages() {
		if !p.ownPath(x.Pkg.Path()) {
			continue
		}
		for _, n := range x.Pkg.Scope().Names() {
			if tn, ok := x.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 && !isIface(nt) {
					if types.Implements(nt, errT) {
						p.errTypes = append(p.errTypes, nt)
					} else if types.Implements(types.NewPointer(nt), errT) {
						p.errTypes = append(p.errTypes, types.NewPointer(nt))
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if k := fnKey(fn); k != "" && len(fn.Blocks) > 0 {
			generic := func(f *ssa.Function) bool { return f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 }
			if o, ok := p.byKey[k]; !ok || generic(o) && !generic(fn) || generic(o) == generic(fn) && fn.String() < o.String() {
				p.byKey[k] = fn
			}
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit {
							p.initVal[g] = st.Val
							if _, isG := st.Val.(*ssa.Global); isG {
								p.stored[st.Val.(*ssa.Global)] = true
							}
							continue
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := ins.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							_ = y
							p.stored[g] = true
						default:
							p.stored[g] = true
						}
					}
				}
			}
		}
	}
	// type parameters name the types of the instance that is verified, where that is unambiguous
	p.typeArgs = map[string]types.Type{}
	for _, fn := range p.byKey {
		o := fn.Origin()
		if o == nil {
			continue
		}
		for i, a := range fn.TypeArgs() {
			if i >= o.TypeParams().Len() {
				break
			}
			k := fnPkgPath(fn) + "." + o.TypeParams().At(i).Obj().Name()
			if x, ok := p.typeArgs[k]; ok && (x == nil || !types.Identical(x, a)) {
				p.typeArgs[k] = nil
			} else {
				p.typeArgs[k] = a
			}
		}
	}
	return p, nil
}

func (p *Program) ownPath(path string) bool {
	return path == p.module || strings.HasPrefix(path, p.module+"/")
}

func (p *Program) pkg(path string) *ssa.Package {
	if x, ok := p.pkgs[path]; ok {
		return x
	}
	return p.pkgs[p.module+"/"+path]
}

func (p *Program) pkgByName(from, name string) *ssa.Package {
	if f := p.pkg(from); f != nil {
		for _, im := range f.Pkg.Imports() {
			if im.Name() == name {
				return p.pkgs[im.Path()]
			}
		}
	}
	var cands []string
	for path, x := range p.pkgs {
		if x.Pkg.Name() == name && !strings.Contains(path, "internal/") && (!strings.Contains(path, "vendor/")) {
			cands = append(cands, path)
		}
	}
	if len(cands) == 0 {
		return nil
	}
	sort.Slice(cands, func(i, j int) bool { return len(cands[i]) < len(cands[j]) })
	return p.pkgs[cands[0]]
}

func (p *Program) global(pkg, name string) *ssa.Global {
	sp := p.pkg(pkg)
	if i := strings.Index(name, "."); i >= 0 {
		sp = p.pkgByName(pkg, name[:i])
		name = name[i+1:]
	}
	if sp != nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return g
		}
	}
	panic(unsupported("no global " + name))
}

func (p *Program) errorTypes() []types.Type { return p.errTypes }

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	p.mu.Lock()
	defer p.mu.Unlock()
	l, ok := p.loopCache[fn]
	if !ok {
		l = findLoops(fn)
		p.loopCache[fn] = l
	}
	return l
}

func fnPkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

// fnKey is the name by which contracts refer to a function: package path, a dot, and F, (T).M or
// (*T).M.  Instances of a generic function share the key of the generic function.
func fnKey(fn *ssa.Function) string {
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") && !strings.HasPrefix(fn.Synthetic, "package init") {
		return ""
	}
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
	}
	pp := fnPkgPath(fn)
	if pp == "" {
		return ""
	}
	root := base
	for root.Parent() != nil { // a closure of a method goes by the name of the method
		root = root.Parent()
	}
	if r := root.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if e, ok := t.(*types.Pointer); ok {
			star = "*"
			t = e.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return ""
		}
		return pp + ".(" + star + n.Obj().Name() + ")." + base.Name()
	}
	return pp + "." + base.Name()
}

func (p *Program) isOwn(fn *ssa.Function) bool {
	if p.ownPath(fnPkgPath(fn)) {
		return true
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") {
		return true // wrappers, thunks and bound methods: the wrapped function decides
	}
	if fn.Parent() != nil {
		return p.isOwn(fn.Parent())
	}
	return false
}

var stdInline = map[string]bool{
	"slices.Contains": true, "slices.Index": true, "slices.IndexFunc": true, "slices.ContainsFunc": true,
	"slices.Insert": false, "strings.ContainsRune": false,
	"cmp.Compare": true, "cmp.Less": true,
}

func (p *Program) inlineStd(fn *ssa.Function) bool {
	b := fn
	if o := fn.Origin(); o != nil {
		b = o
	}
	if b.Pkg == nil {
		return false
	}
	return stdInline[b.Pkg.Pkg.Path()+"."+b.Name()]
}

func (sp *Specs) lookup(fn *ssa.Function) *Contract {
	k := fnKey(fn)
	if k == "" {
		return nil
	}
	return sp.Contracts[k]
}

// globalFacts relates a package variable that is only assigned by its initialiser to that value.
func (v *Verifier) globalFacts(g *ssa.Global, n string, t types.Type) {
	if v.prog.stored[g] {
		return
	}
	x := v.prog.initVal[g]
	if x == nil {
		if v.prog.ownPath(g.Pkg.Pkg.Path()) && v.prog.initVal != nil {
			// never assigned: zero value
			if _, ok := structOf(t); !ok {
				if _, isArr := t.Underlying().(*types.Array); !isArr {
					v.sv.fact(eq(n, v.term(v.entry, v.zero(t)).S))
				}
			}
		}
		return
	}
	for {
		if mi, ok := x.(*ssa.MakeInterface); ok {
			_ = mi
			v.sv.fact("(not (= (i-typ " + n + ") 0))")
			v.sv.fact(fmt.Sprintf("(= (i-typ %s) %d)", n, v.so.typeID(mi.X.Type())))
			return
		}
		if ct, ok := x.(*ssa.ChangeType); ok {
			x = ct.X
			continue
		}
		break
	}
	switch y := x.(type) {
	case *ssa.Const:
		if y.Value != nil {
			v.sv.fact(eq(n, v.constTerm(y.Value, t).S))
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		if _, ok := t.Underlying().(*types.Signature); ok {
			if f, ok := y.(*ssa.Function); ok {
				c := v.term(v.entry, Closure{Fn: f, T: t})
				v.sv.fact(eq(n, c.S))
				return
			}
			v.sv.fact("(not (= " + n + " 0))")
			return
		}
		v.sv.fact("(not (= " + n + " 0))")
	case *ssa.Slice, *ssa.MakeSlice:
		if _, ok := t.Underlying().(*types.Slice); ok {
			v.sv.fact("(not (= (s-loc " + n + ") 0))")
		}
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil {
			switch f.RelString(nil) {
			case "regexp.MustCompile":
				if c, ok := y.Call.Args[0].(*ssa.Const); ok {
					v.sv.fact("(not (= " + n + " 0))")
					if r, err := smtRegexp(constant.StringVal(c.Value)); err == nil {
						f := v.uf("refind", types.Typ[types.Bool], Term{n, t}, Term{"s", types.Typ[types.String]}).S
						v.sv.fact(fmt.Sprintf("(forall ((s String)) (! (= %s (str.in_re s %s)) :pattern (%s)))", f, r, f))
					}
				}
			case "errors.New", "fmt.Errorf":
				v.sv.fact("(not (= (i-typ " + n + ") 0))")
				for _, et := range v.prog.errorTypes() {
					v.sv.fact(fmt.Sprintf("(not (= (i-typ %s) %d))", n, v.so.typeID(et)))
				}
			}
		}
	}
}

// ---- verification of one function -----------------------------------------------------------

type FnResult struct {
	Name     string           `json:"name"`
	Props    []string         `json:"props"`
	File     string           `json:"spec"`
	Pos      string           `json:"pos"`
	Bounded  string           `json:"bounded,omitempty"`
	VCs      []*VC            `json:"vcs"`
	Error    string           `json:"error,omitempty"`
	Inlined  []string         `json:"inlined,omitempty"`
	Callees  []string         `json:"callees,omitempty"`
	Assumed  []string         `json:"assumed,omitempty"`
	Paths    int              `json:"paths"`
	Returns  int              `json:"returns"`
	MS       int64            `json:"ms"`
	SolverMS map[string]int64 `json:"solver_ms"`
	Queries  map[string]int   `json:"queries"`
	Invs     []string         `json:"invariants,omitempty"`
}

func newVerifier(p *Program, sp *Specs, opt *Options, c *Contract) *Verifier {
	sv := newSolver(opt)
	v := &Verifier{prog: p, specs: sp, opt: opt, sv: sv, c: c, loops: map[string]*loopInfo{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, callees: map[string]bool{}, closureID: map[string]*Closure{},
		params: map[string]Val{}}
	v.so = newSorts(sv, p.bvTypes())
	v.so.bvBasic = map[string]bool{}
	if c != nil {
		for _, n := range strings.Split(c.Opts["bv"], ",") {
			v.so.bvBasic[n] = true
		}
	}
	return v
}

func (p *Program) bvTypes() map[string]bool { return p.specs.BV }

func (v *Verifier) guard(f func()) (err string) {
	depth := len(v.sv.marks)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = "unsupported: " + string(u)
			} else {
				err = fmt.Sprintf("internal error: %v", r)
				if v.opt.Verbose {
					fmt.Println(string(debug.Stack()))
				}
			}
			for len(v.sv.marks) > depth {
				v.sv.pop()
			}
			v.pureDepth = 0
		}
	}()
	f()
	return ""
}

func (v *Verifier) runOnce() {
	v.paths, v.rets = 0, 0
	v.results = nil
	v.sv.push()
	defer v.sv.pop()
	if v.alloc0 == "" {
		v.alloc0 = v.fresh("alloc0", "Int")
		v.sv.fact("(< 0 " + v.alloc0 + ")")
	}
	st := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: v.alloc0}
	entry := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: v.alloc0}
	v.entry = entry
	var args []Val
	v.params = map[string]Val{}
	for i, p := range v.fn.Params {
		n := "p_" + v.so.ident("param:"+fmt.Sprint(i))
		if _, ok := v.sv.byN[n]; !ok {
			v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, v.so.sort(p.Type())))
			v.sv.fact(v.wf(entry, Term{n, p.Type()}))
		}
		t := Term{n, p.Type()}
		args = append(args, t)
		if i < len(v.c.Params) {
			v.params[v.c.Params[i]] = t
		}
	}
	var bind []Val
	for i, fv := range v.fn.FreeVars {
		n := "fv_" + v.so.ident("fv:"+fmt.Sprint(i))
		if _, ok := v.sv.byN[n]; !ok {
			v.sv.decl(n, fmt.Sprintf("(declare-const %s %s)", n, v.so.sort(fv.Type())))
			v.sv.fact(v.wf(entry, Term{n, fv.Type()}))
			v.sv.fact("(< 0 " + n + ")")
		}
		bind = append(bind, Term{n, fv.Type()})
		v.params[fv.Name()] = bind[i] // the address of the captured variable
	}
	env := &specEnv{v: v, st: st, old: entry, names: v.params, pkg: v.c.Pkg}
	for _, r := range v.c.Requires {
		v.sv.assert(env.boolean(r.E))
	}
	for _, e := range v.c.Enters {
		x := v.term(st, env.eval(e.E)).S
		v.ghostGet(st, e.Label)
		st.heap["G|"+e.Label] = v.name("G_"+e.Label, v.so.sort(v.ghostType(e.Label)), x)
	}
	if !v.infer {
		if r := v.sv.checkSat(v.opt.QuickMS); r == "unsat" {
			v.results = append(v.results, &VC{Name: v.c.name() + "#vacuity", Clause: "precondition is satisfiable", Status: "refuted", By: "z3-new"})
		} else {
			v.results = append(v.results, &VC{Name: v.c.name() + "#vacuity", Clause: "precondition is satisfiable", Status: "proved", By: "z3-new (" + r + ")"})
		}
	}
	reached := false
	v.pushFrame(st, v.fn, bind, args, "", 0, v.c, func(s *State, vals []Val) {
		v.rets++
		if v.infer {
			return
		}
		if !reached && v.sv.checkSat(v.opt.QuickMS) != "unsat" {
			reached = true
		}
		v.atReturn(s, vals)
	})
	st.frame.caller = nil
	v.cuts = map[string]*cutPoint{}
	v.enterBlock(st, v.fn.Blocks[0], nil)
	v.runCuts()
	if !v.infer && !v.stop {
		vc := &VC{Name: v.c.name() + "#vacuity", Clause: "some return is reachable", Status: "proved", By: "z3-new"}
		if !reached {
			vc.Status = "refuted"
		}
		v.results = append(v.results, vc)
	}
}

func (v *Verifier) atReturn(s *State, vals []Val) {
	names := map[string]Val{}
	for k, x := range v.params {
		names[k] = x
	}
	rs := v.fn.Signature.Results()
	for i := range vals {
		if isIface(rs.At(i).Type()) {
			vals[i] = v.coerce(s, vals[i], rs.At(i).Type())
		}
		if cs, ok := vals[i].(CellSlice); ok {
			vals[i] = v.term(s, cs)
		}
		if ad, ok := vals[i].(Addr); ok && ad.Cell != "" && len(ad.Path) == 0 {
			vals[i] = v.term(s, ad)
		}
		v.escapeAll(s, vals[i])
	}
	for i, r := range v.c.Results {
		if i < len(vals) {
			names[r] = vals[i]
		}
	}
	if len(vals) > 0 {
		names["result"] = vals[0]
	}
	env := &specEnv{v: v, st: s, old: v.entry, names: names, pkg: v.c.Pkg}
	for _, e := range v.c.Ensures {
		label := "ensures"
		if e.Label != "" {
			label += "[" + e.Label + "]"
		}
		props := e.Props
		if len(props) == 0 {
			props = v.c.Props
		}
		if v.opt.Prop != "" && !hasProp(props, v.opt.Prop) {
			continue
		}
		v.oblige(s, label, e.Text, env.boolean(e.E), props, v.fn.Pos())
	}
	for _, i := range v.c.Implements {
		v.checkImplements(s, i, vals)
	}
	v.frameCheck(s)
}

// checkImplements proves that a method also meets the contract its callers assume of the interface.
func (v *Verifier) checkImplements(s *State, name string, vals []Val) {
	ic := v.specs.Contracts[v.c.Pkg+"."+name]
	if ic == nil {
		panic(unsupported("no interface contract " + name))
	}
	tn, _, _ := strings.Cut(name, ".")
	it := v.prog.specType(v.c.Pkg, tn)
	names := map[string]Val{}
	for i, p := range ic.Params {
		x := v.params[v.c.Params[i]]
		if i == 0 {
			t := v.term(s, x)
			names[p] = v.coerce(s, t, it)
			continue
		}
		names[p] = x
	}
	for i, r := range ic.Results {
		names[r] = vals[i]
	}
	env := &specEnv{v: v, st: s, old: v.entry, names: names, pkg: ic.Pkg}
	var pre []string
	for _, r := range ic.Requires {
		pre = append(pre, (&specEnv{v: v, st: v.entry.asStart(s), old: v.entry, names: names, pkg: ic.Pkg}).boolean(r.E))
	}
	for _, e := range ic.Ensures {
		v.oblige(s, "implements "+name, e.Text, imp(and(pre...), env.boolean(e.E)), v.c.Props, v.fn.Pos())
	}
	for _, m := range v.c.Modifies {
		ok := ic.ModAll
		for _, im := range ic.Modifies {
			if im == m {
				ok = true
			}
			if f, isF := strings.CutPrefix(im, "field "); isF {
				tn, fn, _ := strings.Cut(f, ".")
				if strings.HasSuffix(m, "."+fn) && strings.HasPrefix(v.c.Key, "(*"+tn+")") {
					ok = true
				}
			}
		}
		if !ok {
			v.oblige(s, "implements "+name, "modifies "+m+" is allowed by the interface contract", "false", v.c.Props, v.fn.Pos())
		}
	}
}

// frameCheck proves that memory that existed on entry changed only where the contract says.
func (v *Verifier) frameCheck(s *State) {
	if v.c.ModAll || v.c.Opts["noframe"] != "" {
		return
	}
	if s.heap["#havoc"] != "" {
		v.oblige(s, "frame", "a call with unknown effects may change anything", "false", nil, v.fn.Pos())
		return
	}
	allowed, anyLoc, okGlobal := v.allowedPlaces(s)
	for _, k := range sortedKeys(s.heap) {
		if k == "#havoc" || anyLoc[k] || okGlobal[k] {
			continue
		}
		h := s.heap[k]
		switch {
		case strings.HasPrefix(k, "GV|"):
			h0 := "gv_" + v.so.ident(k)
			if h != h0 {
				v.oblige(s, "frame", "package variable "+k[3:]+" is unchanged", eq(h, h0), nil, v.fn.Pos())
			}
		case strings.HasPrefix(k, "G|"):
			h0 := "G0_" + k[2:]
			if h != h0 {
				v.oblige(s, "frame", "ghost "+k[2:]+" is unchanged", eq(h, h0), nil, v.fn.Pos())
			}
		default:
			h0 := "H0_" + v.so.ident("heap:"+k)
			if h == h0 {
				continue
			}
			var ex []string
			for _, l := range allowed[k] {
				ex = append(ex, "(= l "+l+")")
			}
			cond := fmt.Sprintf("(and (< 0 l) (< l %s) (not %s))", v.alloc0, or(ex...))
			if len(ex) == 0 {
				cond = fmt.Sprintf("(and (< 0 l) (< l %s))", v.alloc0)
			}
			v.oblige(s, "frame", keyText(k)+" of objects not listed in modifies is unchanged",
				fmt.Sprintf("(forall ((l Int)) (! (=> %s (= (select %s l) (select %s l))) :pattern ((select %s l))))", cond, h, h0, h), nil, v.fn.Pos())
		}
	}
}

// allowedPlaces resolves the modifies clauses of the contract under proof: locations per heap key,
// keys that may change anywhere, and package variables.
func (v *Verifier) allowedPlaces(s *State) (map[string][]string, map[string]bool, map[string]bool) {
	env := &specEnv{v: v, st: v.entry.asStart(s), old: v.entry, names: v.params, pkg: v.c.Pkg}
	allowed := map[string][]string{} // heap key -> locations
	anyLoc := map[string]bool{}
	okGlobal := map[string]bool{}
	for _, e := range append(append([]*Clause{}, v.c.Effects...), v.c.Enters...) {
		anyLoc["G|"+e.Label] = true
	}
	for _, m := range v.c.Modifies {
		switch {
		case strings.HasPrefix(m, "field "):
			for _, kt := range v.fieldKeys(v.c.Pkg, m[6:]) {
				anyLoc[kt[0]] = true
			}
		case strings.HasPrefix(m, "ghost "):
			anyLoc["G|"+strings.TrimSpace(m[6:])] = true
		case strings.HasPrefix(m, "map "):
			t := v.term(env.st, env.eval(parseExprAt(m[4:], "modifies", 0)))
			a, b, c, _, _ := v.mapKeys(t.T)
			for _, k := range []string{a, b, c} {
				allowed[k] = append(allowed[k], t.S)
			}
		case strings.HasPrefix(m, "global "):
			okGlobal["GV|"+v.prog.global(v.c.Pkg, strings.TrimSpace(m[7:])).String()] = true
		case strings.HasSuffix(m, "[*]"):
			t := v.term(env.st, env.eval(parseExprAt(strings.TrimSuffix(m, "[*]"), "modifies", 0)))
			k := "S|" + v.so.sort(t.T.Underlying().(*types.Slice).Elem())
			allowed[k] = append(allowed[k], "(s-loc "+t.S+")")
		default:
			var a Addr
			if strings.HasSuffix(m, ".*") || strings.HasPrefix(m, "*") {
				p := env.eval(parseExprAt(strings.TrimPrefix(strings.TrimSuffix(m, ".*"), "*"), "modifies", 0))
				a = v.deref(env.st, p)
			} else {
				a = env.address(parseExprAt(m, "modifies", 0))
			}
			for _, k := range v.leafKeys(a.Root, a.Path) {
				allowed[k] = append(allowed[k], a.Base)
			}
		}
	}
	return allowed, anyLoc, okGlobal
}

func (st *State) asStart(s *State) *State {
	n := *st
	n.frame = s.frame
	if n.cells == nil {
		n.cells = map[string]*Cell{}
	}
	return &n
}

func keyText(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (v *Verifier) leafKeys(root types.Type, path []int) []string {
	t := typeAt(root, path)
	if s, ok := structOf(t); ok {
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, v.leafKeys(root, append(append([]int(nil), path...), i))...)
		}
		return out
	}
	return []string{fieldKey(root, path)}
}

func verifyFn(p *Program, sp *Specs, opt *Options, c *Contract) *FnResult {
	t := time.Now()
	r := &FnResult{Name: c.name(), Props: c.Props, File: fmt.Sprintf("%s:%d", c.File, c.Line)}
	o := *opt
	if x := c.Opts["slow"]; x != "" {
		fmt.Sscan(x, &o.SlowS)
	}
	if x := c.Opts["quick"]; x != "" {
		fmt.Sscan(x, &o.QuickMS)
	}
	if x := c.Opts["infer"]; x != "" {
		fmt.Sscan(x, &o.InferMS)
	}
	if x := c.Opts["depth"]; x != "" {
		fmt.Sscan(x, &o.MaxDepth)
	}
	if x := c.Opts["paths"]; x != "" {
		fmt.Sscan(x, &o.MaxPaths)
	}
	if x := c.Opts["mirrors"]; x != "" {
		fmt.Sscan(x, &o.Mirrors)
	}
	fn := p.byKey[c.Pkg+"."+c.Key]
	if fn == nil {
		r.Error = "function " + c.Pkg + "." + c.Key + " does not exist in the source"
		r.VCs = []*VC{{Name: c.name() + "#exists", Clause: r.Error, Status: "refuted"}}
		return r
	}
	v := newVerifier(p, sp, &o, c)
	defer v.sv.close()
	v.fn = fn
	r.Pos = v.pos(fn.Pos())
	if len(fn.Params) != len(c.Params) {
		r.Error = fmt.Sprintf("contract has %d parameters, function has %d", len(c.Params), len(fn.Params))
		r.VCs = []*VC{{Name: c.name() + "#signature", Clause: r.Error, Status: "refuted"}}
		return r
	}
	if fn.Signature.Results().Len() != len(c.Results) && len(c.Results) > 0 {
		r.Error = fmt.Sprintf("contract has %d results, function has %d", len(c.Results), fn.Signature.Results().Len())
		r.VCs = []*VC{{Name: c.name() + "#signature", Clause: r.Error, Status: "refuted"}}
		return r
	}
	passes := 0
	err := v.guard(func() {
		for {
			v.infer = true
			v.changed = false
			t1 := time.Now()
			v.runOnce()
			if v.opt.Trace2 {
				fmt.Printf("    == inference pass %d: %.1f s, changed=%v queries=%d\n", passes, time.Since(t1).Seconds(), v.changed, v.sv.Count["z3-new"])
			}
			for _, k := range sortedKeys(v.loops) {
				v.frameCands(v.loops[k])
			}
			passes++
			if !v.changed || len(v.loops) == 0 {
				break
			}
			if passes > 40 {
				panic(unsupported("loop invariant inference does not stabilise"))
			}
		}
		v.infer = false
		v.changed = false
		v.runOnce()
		if v.changed {
			panic(unsupported("modified set changed in the final pass"))
		}
	})
	r.VCs = v.results
	if err != "" {
		r.Error = err
		r.VCs = append(r.VCs, &VC{Name: c.name() + "#support", Clause: "the function is within the supported subset", Status: "unsupported", Detail: err})
	}
	for _, k := range sortedKeys(v.loops) {
		for _, cd := range v.loops[k].cands {
			if cd.alive && cd.clause != nil {
				r.Invs = append(r.Invs, cd.text)
			}
		}
	}
	r.Inlined, r.Callees, r.Assumed = sortedKeys(v.inlined), sortedKeys(v.callees), sortedKeys(v.assumed)
	r.Paths, r.Returns = v.paths, v.rets
	r.MS = time.Since(t).Milliseconds()
	r.SolverMS, r.Queries = map[string]int64{}, map[string]int{}
	v.sv.mu.Lock()
	for k, d := range v.sv.Time {
		r.SolverMS[k] = d.Milliseconds()
	}
	for k, n := range v.sv.Count {
		r.Queries[k] = n
	}
	v.sv.mu.Unlock()
	return r
}

func verifyLemma(p *Program, sp *Specs, opt *Options, l *Lemma) *FnResult {
	t := time.Now()
	c := &Contract{Pkg: l.Pkg, Key: "lemma:" + l.Name, Props: l.Props, Opts: map[string]string{"use": l.C.With, "bv": l.C.BV}}
	r := &FnResult{Name: c.name(), Props: l.Props, File: fmt.Sprintf("%s:%d", l.C.File, l.C.Line)}
	v := newVerifier(p, sp, opt, c)
	defer v.sv.close()
	err := v.guard(func() {
		v.alloc0 = v.fresh("alloc0", "Int")
		v.ground = len(l.C.Hints) > 0
		st := &State{heap: map[string]string{}, cells: map[string]*Cell{}, alloc: v.alloc0}
		v.entry = st
		env := &specEnv{v: v, st: st, old: st, names: map[string]Val{}, pkg: l.Pkg}
		v.sv.push()
		if l.C.Induct == "" && len(l.C.Hints) > 0 && l.C.E.Op == "forall" {
			for _, vd := range l.C.E.Vars {
				t := v.prog.specType(l.Pkg, vd.Type)
				env.names[vd.Name] = Term{v.fresh(sanitize(vd.Name), v.so.sort(t)), t}
			}
			for _, h := range l.C.Hints {
				v.instantiate(env, h)
			}
			body := l.C.E.Kids[0]
			if body.Op == "call" && body.Kids[0].Val == "trigger" {
				body = body.Kids[1]
			}
			v.oblige(st, "lemma", l.C.Text, env.boolean(body), l.Props, 0)
		} else if l.C.Induct == "" {
			v.oblige(st, "lemma", l.C.Text, env.boolean(l.C.E), l.Props, 0)
		} else {
			// for arbitrary values of the variables, assuming the statement for every smaller value
			x := l.C.E
			if x.Op != "forall" {
				panic(unsupported("induction over something that is not a forall"))
			}
			for _, vd := range x.Vars {
				t := v.prog.specType(l.Pkg, vd.Type)
				env.names[vd.Name] = Term{v.fresh(sanitize(vd.Name), v.so.sort(t)), t}
			}
			m := env.names[l.C.Induct].(Term)
			strip := func(x *Expr) *Expr {
				if x.Op == "call" && x.Kids[0].Val == "trigger" {
					return x.Kids[1]
				}
				return x
			}
			small := m // what the hypothesis is about
			big := []Term{m}
			if isString(m.T) { // the empty text; one byte and the rest
				h, u := v.fresh("head", "String"), v.fresh("rest", "String")
				v.sv.assert("(= (str.len " + h + ") 1)")
				env.names["head"], env.names["rest"] = Term{h, m.T}, Term{u, m.T}
				small = Term{u, m.T}
				big = []Term{{`""`, m.T}, {"(str.++ " + h + " " + u + ")", m.T}}
			} else { // zero; one more
				v.sv.assert("(<= 0 " + m.S + ")")
				env.names["rest"] = m
				big = []Term{{"0", m.T}, {"(+ " + m.S + " 1)", m.T}}
			}
			for k, b := range big {
				v.sv.push()
				e := env.bind(l.C.Induct, b)
				if k == 1 {
					v.pureDepth++
					n := env.bind(l.C.Induct, small)
					var ds []string
					for _, vd := range x.Vars {
						if vd.Name == l.C.Induct {
							continue
						}
						t := v.prog.specType(l.Pkg, vd.Type)
						v.n++
						q := fmt.Sprintf("q!%s%d", sanitize(vd.Name), v.n)
						ds = append(ds, "("+q+" "+v.so.sort(t)+")")
						n = n.bind(vd.Name, Term{q, t})
					}
					body := n.boolean(x.Kids[0])
					if len(ds) == 0 {
						body = n.boolean(strip(x.Kids[0]))
					} else {
						body = "(forall (" + strings.Join(ds, " ") + ") " + body + ")"
					}
					v.pureDepth--
					if !v.ground {
						v.sv.assert(body)
					}
					v.sv.assert(env.bind(l.C.Induct, small).boolean(strip(x.Kids[0]))) // the instance at the same values
				}
				for _, h := range l.C.Hints {
					if k == 0 && (mentions(h, "head") || mentions(h, "rest")) {
						continue
					}
					v.instantiate(e, h)
				}
				v.oblige(st, "lemma", l.C.Text, e.boolean(strip(x.Kids[0])), l.Props, 0)
				v.sv.pop()
			}
		}
		v.sv.pop()
	})
	r.VCs = v.results
	if err != "" {
		r.Error = err
		r.VCs = append(r.VCs, &VC{Name: c.name() + "#support", Clause: l.C.Text, Status: "unsupported", Detail: err})
	}
	r.Assumed = sortedKeys(v.assumed)
	r.MS = time.Since(t).Milliseconds()
	r.SolverMS, r.Queries = map[string]int64{}, map[string]int{}
	v.sv.mu.Lock()
	for k, d := range v.sv.Time {
		r.SolverMS[k] = d.Milliseconds()
	}
	for k, n := range v.sv.Count {
		r.Queries[k] = n
	}
	v.sv.mu.Unlock()
	return r
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func main() {
	opt := &Options{}
	var prop, fnre, out string
	flag.StringVar(&opt.Repo, "repo", "/repo", "repository")
	flag.StringVar(&opt.Specs, "specs", "/verif/contracts", "contract directory")
	flag.StringVar(&prop, "prop", "", "only contracts of this property")
	flag.StringVar(&fnre, "fn", "", "only functions matching this expression")
	flag.StringVar(&out, "json", "", "write results here")
	flag.StringVar(&opt.Dump, "dump", "", "directory for failed queries")
	flag.IntVar(&opt.MaxFail, "maxfail", 5, "stop a function after this many failed obligations")
	flag.IntVar(&opt.FeasMS, "feas", 400, "feasibility check timeout (ms)")
	flag.IntVar(&opt.QuickMS, "quick", 3000, "incremental proof timeout (ms)")
	flag.IntVar(&opt.InferMS, "infer", 1500, "inference proof timeout (ms)")
	flag.IntVar(&opt.SlowS, "slow", 20, "fallback solver timeout (s)")
	flag.IntVar(&opt.MaxPaths, "paths", 4000, "branch limit")
	flag.IntVar(&opt.MaxDepth, "depth", 8, "inlining depth")
	flag.IntVar(&opt.Jobs, "jobs", 6, "functions in parallel")
	flag.BoolVar(&opt.Verbose, "v", false, "verbose")
	flag.BoolVar(&opt.Trace, "trace", false, "trace solver input")
	flag.BoolVar(&opt.Trace2, "trace2", false, "print dropped goals")
	list := flag.Bool("list", false, "list contracts")
	flag.Parse()
	opt.Prop = prop
	specs := parseSpecs(opt.Specs)
	if *list {
		for _, c := range specs.Order {
			fmt.Println(c.name(), c.Props, c.Trusted)
		}
		return
	}
	p, err := loadProgram(opt.Repo, specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	// package paths in spec files are relative to the module
	norm := map[string]*Contract{}
	for k, c := range specs.Contracts {
		_ = k
		if sp := p.pkg(c.Pkg); sp != nil && c.Pkg != "" {
			c.Pkg = sp.Pkg.Path()
		} else if c.Pkg == "." {
			c.Pkg = p.module
		}
		norm[c.Pkg+"."+c.Key] = c
	}
	specs.Contracts = norm
	fix := func(s *string) {
		if *s == "." {
			*s = p.module
		} else if sp := p.pkg(*s); sp != nil {
			*s = sp.Pkg.Path()
		}
	}
	for _, t := range specs.Types {
		fix(&t.Pkg)
	}
	for _, m := range specs.Macros {
		fix(&m.Pkg)
	}
	for i := range specs.SMT {
		fix(&specs.SMT[i].pkg)
	}
	for i := range specs.Ghosts {
		fix(&specs.Ghosts[i].pkg)
	}
	for _, l := range specs.Lemmas {
		fix(&l.Pkg)
	}
	bv := map[string]bool{}
	for k := range specs.BV {
		i := strings.LastIndex(k, ".")
		pp := k[:i]
		fix(&pp)
		bv[pp+k[i:]] = true
	}
	specs.BV = bv
	var re *regexp.Regexp
	if fnre != "" {
		re = regexp.MustCompile(fnre)
	}
	type job func() *FnResult
	var jobs []job
	for _, c := range specs.Order {
		c := c
		if c.Trusted || c.Inline || prop != "" && !hasProp(c.Props, prop) || re != nil && !re.MatchString(c.name()) {
			continue
		}
		jobs = append(jobs, func() *FnResult { return verifyFn(p, specs, opt, c) })
	}
	for _, l := range specs.Lemmas {
		l := l
		if prop != "" && !hasProp(l.Props, prop) || re != nil && !re.MatchString("lemma:"+l.Name) {
			continue
		}
		jobs = append(jobs, func() *FnResult { return verifyLemma(p, specs, opt, l) })
	}
	results := make([]*FnResult, len(jobs))
	sem := make(chan struct{}, opt.Jobs)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = j()
		}()
	}
	wg.Wait()
	bad := 0
	total, ok := 0, 0
	for _, r := range results {
		n, f := 0, 0
		for _, vc := range r.VCs {
			n++
			if vc.Status != "proved" {
				f++
			}
		}
		total += n
		ok += n - f
		st := "ok"
		if f > 0 || r.Error != "" {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %-60s %3d/%-3d obligations, %d paths, %d returns, %d ms %s\n", st, r.Name, n-f, n, r.Paths, r.Returns, r.MS, r.Error)
		if f > 0 {
			seen := map[string]int{}
			for _, vc := range r.VCs {
				if vc.Status != "proved" {
					k := vc.Name + " " + vc.Clause
					seen[k]++
					if seen[k] <= 2 {
						fmt.Printf("      %s %s: %s [%s] path: %s\n", vc.Status, vc.Name, trunc(vc.Clause, 200), trunc(vc.Detail, 200), trunc(vc.Path, 400))
					}
				}
			}
		}
		if opt.Verbose {
			for _, x := range r.Invs {
				fmt.Println("      inv:", x)
			}
			for _, x := range r.Assumed {
				fmt.Println("      assumed:", x)
			}
			fmt.Println("      inlined:", r.Inlined, "callees:", r.Callees)
		}
	}
	fmt.Printf("%d functions, %d/%d obligations discharged\n", len(results), ok, total)
	if out != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.WriteFile(out, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
