package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	key   string
	mods  map[string]bool
	cands []*cand
	init  bool
	gen   map[string]bool // heap arrays in which arrivals differ
}

type cand struct {
	id     string
	text   string
	alive  bool
	clause *Clause
	spec   *Contract
	bind   map[string]poolItem
	auto   func(v *Verifier, st *State, pre *State, phis map[*ssa.Phi]Val) string
}

type poolItem struct {
	key  string
	typ  types.Type
	get  func(st *State, phis map[*ssa.Phi]Val) Val
	name string
}

func (v *Verifier) loopInfo(st *State, l *natLoop) *loopInfo {
	k := fmt.Sprintf("%s#%d", st.frame.key, l.header.Index)
	li := v.loops[k]
	if li == nil {
		li = &loopInfo{key: k, mods: map[string]bool{}}
		v.loops[k] = li
	}
	return li
}

func (v *Verifier) loopEnter(st *State, l *natLoop, phis map[*ssa.Phi]Val, b *ssa.BasicBlock) (deferred bool) {
	li := v.loopInfo(st, l)
	// cells that escape inside the loop escape before it
	for _, m := range sortedKeys(li.mods) {
		if strings.HasPrefix(m, "e:") {
			id := m[2:]
			if c := st.cells[id]; c != nil && c.Escaped == "" {
				v.escape(st, id)
			}
		}
	}
	// phi values become terms so they can be havocked
	pre := st.snapshot()
	if !li.init {
		li.init = true
		v.makeCands(st, l, li, phis)
	}
	// entry check
	v.checkCands(st, pre, li, phis, "entry")
	if v.c != nil && v.c.Opts["nocut"] == "" && st.frame.caller == nil {
		v.deferLoop(st, l, li, b, phis)
		return true
	}
	v.loopHavoc(st, pre, li, l, phis)
	return false
}

func (v *Verifier) loopHavoc(st, pre *State, li *loopInfo, l *natLoop, phis map[*ssa.Phi]Val) {
	st.frame.loops = append(st.frame.loops, &activeLoop{info: li, l: l, pre: pre})
	if li.mods["alloc"] {
		na := v.fresh("alloc", "Int")
		v.sv.assert("(<= " + st.alloc + " " + na + ")")
		st.alloc = na
	}
	for _, m := range sortedKeys(li.mods) {
		switch {
		case strings.HasPrefix(m, "h:"):
			key, srt, _ := cutLast(m[2:], "|")
			// sorts contain no '|', keys may
			st.heap[key] = v.fresh("Hl", srt)
		case strings.HasPrefix(m, "g:"):
			g, srt, _ := cutLast(m[2:], "|")
			st.heap["GV|"+g] = v.fresh("gvl", srt)
		case strings.HasPrefix(m, "G:"):
			g := m[2:]
			st.heap["G|"+g] = v.fresh("G_"+g, v.so.sort(v.ghostType(g)))
		case strings.HasPrefix(m, "c:"):
			id := m[2:]
			if c := st.cells[id]; c != nil && c.Escaped == "" {
				n := *c
				n.V = v.freshLike(st, c.V, c.T)
				st.cells[id] = &n
			}
		}
	}
	var ps []*ssa.Phi
	for p := range phis {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		if !v.phiChanges(l, p) {
			continue
		}
		phis[p] = v.freshVal(st, "phi_"+sanitize(p.Comment), p.Type())
	}
	for _, c := range li.cands {
		if c.alive {
			v.sv.assert(v.candTerm(c, st, pre, phis))
		}
	}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	return s[:i], s[i+1:], true
}

func (v *Verifier) freshLike(st *State, x Val, t types.Type) Val {
	if av, ok := x.(ArrayVal); ok {
		n := ArrayVal{T: av.T}
		et := av.T.Underlying().(*types.Array).Elem()
		for _, e := range av.E {
			n.E = append(n.E, v.freshLike(st, e, et))
		}
		return n
	}
	if s, ok := structOf(t); ok {
		sv := StructVal{T: t}
		for i := 0; i < s.NumFields(); i++ {
			sv.F = append(sv.F, v.freshLike(st, nil, s.Field(i).Type()))
		}
		return sv
	}
	if _, ok := t.(*ghostMap); ok {
		return Term{v.fresh("gm", v.so.sort(t)), t}
	}
	return v.freshVal(st, "lc", t)
}

// phiChanges is false when every back edge brings the phi's own value.
func (v *Verifier) phiChanges(l *natLoop, p *ssa.Phi) bool {
	for i, pr := range l.header.Preds {
		if l.body[pr] && p.Edges[i] != ssa.Value(p) {
			return true
		}
	}
	return false
}

func (v *Verifier) loopBack(st *State, al *activeLoop, phis map[*ssa.Phi]Val) {
	v.checkCands(st, al.pre, al.info, phis, "preserved")
}

func (v *Verifier) checkCands(st *State, pre *State, li *loopInfo, phis map[*ssa.Phi]Val, when string) {
	type job struct {
		c *cand
		g string
	}
	var ground, quant []job
	for _, c := range li.cands {
		if !c.alive {
			continue
		}
		g := v.candTerm(c, st, pre, phis)
		if g == "true" && v.infer {
			continue
		}
		if strings.Contains(g, "(forall ") || strings.Contains(g, "(exists ") {
			quant = append(quant, job{c, g})
		} else {
			ground = append(ground, job{c, g})
		}
	}
	holds := func(js []job, ms int) bool {
		var gs []string
		for _, j := range js {
			gs = append(gs, j.g)
		}
		return v.sv.proveIn(and(gs...), ms).Status == "proved"
	}
	if !v.infer {
		for _, js := range [][]job{ground, quant} {
			all := len(js) > 1 && holds(js, v.opt.InferMS)
			for _, j := range js {
				if all {
					v.results = append(v.results, &VC{Name: v.c.name() + "#invariant(" + when + ")", Clause: j.c.text, Status: "proved", By: "z3-new (incremental)"})
					continue
				}
				v.oblige(st, "invariant("+when+")", j.c.text, j.g, nil, 0)
			}
		}
		return
	}
	if len(ground) > 0 && holds(ground, v.opt.InferMS/3) {
		ground = nil
	}
	if len(quant) > 0 && holds(quant, v.opt.InferMS/3) {
		quant = nil
	}
	js := append(ground, quant...)
	var goals []string
	var from []int
	for i, j := range js {
		for _, g := range splitGoal(j.g) {
			goals = append(goals, g)
			from = append(from, i)
		}
	}
	for gi, ok := range v.sv.proveMany(goals, v.opt.InferMS) {
		j := js[from[gi]]
		if ok || !j.c.alive {
			continue
		}
		j.c.alive = false
		v.changed = true
		if v.opt.Verbose && j.c.clause != nil {
			fmt.Printf("    drop (%s) %s  [%s]\n", when, j.c.text, strings.Join(st.trace, " "))
			if v.opt.Trace2 {
				fmt.Println("       goal", trunc(goals[gi], 800))
			}
			if v.opt.Dump != "" {
				if r := v.sv.proveMS(goals[gi], false, v.opt.InferMS); r.Status == "proved" {
					fmt.Println("       (a full query proves it)", r.By)
				}
			}
		}
	}
}

func (v *Verifier) candTerm(c *cand, st, pre *State, phis map[*ssa.Phi]Val) string {
	if c.auto != nil {
		return c.auto(v, st, pre, phis)
	}
	names := map[string]Val{}
	for k, x := range v.specNames(st, c.spec) {
		names[k] = x
	}
	for n, it := range c.bind {
		names[n] = it.get(st, phis)
		if strings.Contains(c.text, "fieldmap(") { // the object must be in the heap the clause looks at
			v.escapeAll(st, names[n])
		}
	}
	env := &specEnv{v: v, st: st, old: v.oldFor(st, c.spec), pre: pre, names: names, pkg: c.spec.Pkg}
	return env.boolean(c.clause.E)
}

// specNames are the names a loop invariant may use without declaring them: the parameters of the
// function that carries the contract.
func (v *Verifier) specNames(st *State, ct *Contract) map[string]Val {
	out := map[string]Val{}
	if ct == v.c {
		for k, x := range v.params {
			out[k] = x
		}
		return out
	}
	for f := st.frame; f != nil; f = f.caller {
		if f.spec == ct {
			for i, p := range f.fn.Params {
				if i < len(ct.Params) {
					out[ct.Params[i]] = f.env[p]
				}
			}
			break
		}
	}
	return out
}

func (v *Verifier) oldFor(st *State, ct *Contract) *State { return v.entry }

func (v *Verifier) pool(st *State, l *natLoop, phis map[*ssa.Phi]Val) []poolItem {
	var out []poolItem
	f := st.frame
	for p := range phis {
		p := p
		if !v.phiChanges(l, p) {
			continue
		}
		out = append(out, poolItem{key: "phi:" + p.Name(), typ: p.Type(), name: p.Comment, get: func(st *State, ph map[*ssa.Phi]Val) Val { return ph[p] }})
		if isInt(p.Type()) {
			if _, ok := v.so.isBV(p.Type()); !ok {
				out = append(out, poolItem{key: "phi+1:" + p.Name(), typ: p.Type(), name: p.Comment + "+1", get: func(st *State, ph map[*ssa.Phi]Val) Val {
					return v.binopInt("+", v.term(st, ph[p]), "1")
				}})
			}
		}
	}
	for _, id := range sortedKeys(st.cells) {
		c := st.cells[id]
		if c.Escaped != "" {
			continue
		}
		id := id
		switch c.T.(type) {
		case *ghostMap:
			out = append(out, poolItem{key: "cell:" + id, typ: c.T, name: "#visited", get: func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[id].V }})
			continue
		}
		if _, ok := c.T.Underlying().(*types.Array); ok {
			continue
		}
		out = append(out, poolItem{key: "cell:" + id, typ: c.T, name: c.Name, get: func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[id].V }})
	}
	// named values computed before the loop
	seen := map[ssa.Value]bool{}
	for _, b := range f.fn.Blocks {
		if !b.Dominates(l.header) || b == l.header {
			continue
		}
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.DebugRef)
			if !ok || d.IsAddr || seen[d.X] {
				continue
			}
			id, ok := d.Expr.(interface{ String() string })
			if !ok {
				continue
			}
			if _, isC := d.X.(*ssa.Const); isC {
				continue
			}
			if _, has := f.env[d.X]; !has {
				continue
			}
			switch d.X.(type) {
			case *ssa.Parameter, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.FreeVar:
				continue
			}
			seen[d.X] = true
			x := d.X
			fr := f.key
			out = append(out, poolItem{key: "val:" + x.Name(), typ: x.Type(), name: id.String(), get: func(st *State, _ map[*ssa.Phi]Val) Val {
				for f := st.frame; f != nil; f = f.caller {
					if f.key == fr {
						return f.env[x]
					}
				}
				return nil
			}})
		}
	}
	// the values an enclosing frame's variables hold are reachable through cells only
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func (v *Verifier) binopInt(op string, a Term, b string) Term {
	return Term{"(" + op + " " + a.S + " " + b + ")", a.T}
}

func (v *Verifier) makeCands(st *State, l *natLoop, li *loopInfo, phis map[*ssa.Phi]Val) {
	pool := v.pool(st, l, phis)
	add := func(c *cand) {
		c.alive = true
		li.cands = append(li.cands, c)
	}
	// automatic invariants
	for _, it := range pool {
		it := it
		if !strings.HasPrefix(it.key, "phi:") {
			if strings.HasPrefix(it.key, "cell:") {
				if _, ok := it.typ.Underlying().(*types.Slice); ok {
					add(&cand{id: "auto-fresh:" + it.key, text: "(auto) " + it.name + " is nil or fresh", auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
						s := v.term(st, it.get(st, ph)).S
						return fmt.Sprintf("(or (>= (s-loc %s) %s) (= (s-cap %s) 0))", s, v.alloc0, s)
					}})
				}
			}
			continue
		}
		switch {
		case isInt(it.typ):
			if _, ok := v.so.isBV(it.typ); ok || v.c != nil && v.c.Opts["norel"] != "" {
				continue
			}
			for _, b := range []string{"0", "(- 1)"} {
				b := b
				add(&cand{id: "auto-lo:" + it.key + b, text: "(auto) " + it.name + " >= " + b, auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
					return "(>= " + v.term(st, it.get(st, ph)).S + " " + b + ")"
				}})
			}
			// relations with integers available before the loop
			for _, o := range v.loopBounds(st, l) {
				o := o
				for _, op := range []string{"<=", "<", ">="} {
					op := op
					add(&cand{id: "auto-rel:" + it.key + op + o.key, text: "(auto) " + it.name + " " + op + " " + o.name, auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
						b := o.get(st, ph)
						if b == nil {
							return "true"
						}
						return "(" + op + " " + v.term(st, it.get(st, ph)).S + " " + v.term(st, b).S + ")"
					}})
				}
			}
		default:
			if _, ok := it.typ.Underlying().(*types.Slice); ok {
				add(&cand{id: "auto-fresh:" + it.key, text: "(auto) " + it.name + " is nil or fresh", auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
					s := v.term(st, it.get(st, ph)).S
					return fmt.Sprintf("(or (>= (s-loc %s) %s) (= (s-cap %s) 0))", s, v.alloc0, s)
				}})
				add(&cand{id: "auto-nonnil:" + it.key, text: "(auto) " + it.name + " is not nil", auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
					return "(not (= (s-loc " + v.term(st, it.get(st, ph)).S + ") 0))"
				}})
			}
		}
	}
	add(&cand{id: "auto-frame", text: "(auto) objects that existed on entry are unchanged", auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
		return "true"
	}})
	// frame candidates are created per modified key, lazily
	var specs []*Contract
	if v.c != nil {
		specs = append(specs, v.c)
	}
	for f := st.frame; f != nil; f = f.caller {
		if f.spec != nil && f.spec != v.c {
			specs = append(specs, f.spec)
			break
		}
	}
	for _, ct := range specs {
		for _, cl := range ct.Invs {
			v.instances(st, li, ct, cl, pool, add)
		}
	}
	v.frameCands(li)
}

// frameCands adds "unchanged since function entry" / "since loop entry" candidates for heap arrays
// the loop is known to modify.
func (v *Verifier) frameCands(li *loopInfo) {
	have := map[string]bool{}
	for _, c := range li.cands {
		have[c.id] = true
	}
	all := map[string]bool{}
	for m := range li.mods {
		all[m] = true
	}
	for m := range li.gen {
		all[m] = true
	}
	for _, m := range sortedKeys(all) {
		if !strings.HasPrefix(m, "h:") || strings.HasPrefix(m, "h:#") {
			continue
		}
		key, _, _ := cutLast(m[2:], "|")
		for _, kind := range []string{"entry", "pre", "mod"} {
			kind := kind
			id := "frame-" + kind + ":" + key
			if have[id] {
				continue
			}
			li.cands = append(li.cands, &cand{id: id, alive: true, text: "(auto) " + key + " of older objects unchanged since " + kind, auto: func(v *Verifier, st, pre *State, ph map[*ssa.Phi]Val) string {
				if _, anyLoc, _ := v.allowedPlaces(st); anyLoc[key] {
					return "true"
				}
				ref, lim := v.entry, v.alloc0
				if kind == "pre" {
					ref, lim = pre, pre.alloc
				}
				h, ok := st.heap[key]
				if !ok {
					return "true"
				}
				h0, ok := ref.heap[key]
				if !ok {
					n := "H0_" + v.so.ident("heap:"+key)
					if _, ok := v.sv.byN[n]; !ok {
						return "true"
					}
					h0 = n
				}
				if h == h0 {
					return "true"
				}
				if kind == "mod" {
					allowed, anyLoc, _ := v.allowedPlaces(st)
					if anyLoc[key] || len(allowed[key]) == 0 {
						return "true"
					}
					var ex []string
					for _, l := range allowed[key] {
						ex = append(ex, "(= l "+l+")")
					}
					return fmt.Sprintf("(forall ((l Int)) (! (=> (and (< 0 l) (< l %s) (not %s)) (= (select %s l) (select %s l))) :pattern ((select %s l))))", lim, or(ex...), h, h0, h)
				}
				return fmt.Sprintf("(forall ((l Int)) (! (=> (and (< 0 l) (< l %s)) (= (select %s l) (select %s l))) :pattern ((select %s l))))", lim, h, h0, h)
			}})
			v.changed = true
		}
	}
}

// loopBounds are integers the loop's conditions compare with and that do not change in the loop.
func (v *Verifier) loopBounds(st *State, l *natLoop) []poolItem {
	var out []poolItem
	f := st.frame
	seen := map[ssa.Value]bool{}
	fr := f.key
	for b := range l.body {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, x := range []ssa.Value{bo.X, bo.Y} {
				if !isInt(x.Type()) || seen[x] {
					continue
				}
				if _, ok := v.so.isBV(x.Type()); ok {
					continue
				}
				if xi, ok := x.(ssa.Instruction); ok {
					if l.body[xi.Block()] {
						// len(s) recomputed in the loop for an s from outside
						if c, ok := x.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								a := c.Call.Args[0]
								if ai, ok := a.(ssa.Instruction); !ok || !l.body[ai.Block()] {
									if _, has := f.env[a]; has {
										seen[x] = true
										out = append(out, poolItem{key: "len:" + a.Name(), name: "len(" + a.Name() + ")", typ: x.Type(), get: func(st *State, _ map[*ssa.Phi]Val) Val {
											for f := st.frame; f != nil; f = f.caller {
												if f.key == fr {
													if cs, ok := f.env[a].(CellSlice); ok {
														return Term{fmt.Sprint(cs.N), types.Typ[types.Int]}
													}
													return Term{v.lenOf(st, v.term(st, f.env[a])), types.Typ[types.Int]}
												}
											}
											return nil
										}})
									}
								}
							}
						}
						continue
					}
				}
				if _, isC := x.(*ssa.Const); !isC {
					if _, has := f.env[x]; !has {
						continue
					}
				}
				seen[x] = true
				x := x
				out = append(out, poolItem{key: x.Name(), name: x.Name(), typ: x.Type(), get: func(st *State, _ map[*ssa.Phi]Val) Val {
					if c, ok := x.(*ssa.Const); ok {
						return v.constVal(c)
					}
					for f := st.frame; f != nil; f = f.caller {
						if f.key == fr {
							return f.env[x]
						}
					}
					return nil
				}})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func (v *Verifier) instances(st *State, li *loopInfo, ct *Contract, cl *Clause, pool []poolItem, add func(*cand)) {
	if len(cl.Vars) == 0 {
		add(&cand{id: cl.Text, text: cl.Text, clause: cl, spec: ct, bind: nil})
		return
	}
	n := 0
	var rec func(i int, bind map[string]poolItem, used map[string]bool)
	rec = func(i int, bind map[string]poolItem, used map[string]bool) {
		if n > 400 {
			return
		}
		if i == len(cl.Vars) {
			b := map[string]poolItem{}
			var d []string
			for k, x := range bind {
				b[k] = x
				d = append(d, k+"="+x.name)
			}
			sort.Strings(d)
			n++
			add(&cand{id: cl.Text + strings.Join(d, ","), text: cl.Text + "   with " + strings.Join(d, ", "), clause: cl, spec: ct, bind: b})
			return
		}
		vd := cl.Vars[i]
		want := v.prog.specType(ct.Pkg, vd.Type)
		// an exactly named variable is preferred; otherwise anything of the type
		exact := false
		for _, it := range pool {
			if it.name == vd.Name && typeEq(it.typ, want) {
				exact = true
			}
		}
		for _, it := range pool {
			if !typeEq(it.typ, want) || used[it.key] {
				continue
			}
			if exact && it.name != vd.Name {
				continue
			}
			bind[vd.Name] = it
			used[it.key] = true
			rec(i+1, bind, used)
			delete(bind, vd.Name)
			delete(used, it.key)
		}
	}
	rec(0, map[string]poolItem{}, map[string]bool{})
	if n == 0 && v.opt.Verbose {
		fmt.Printf("    (no variable of the right type for %s in loop %s)\n", cl.Text, li.key)
	}
}

func typeEq(a, b types.Type) bool {
	if x, ok := a.(*ghostMap); ok {
		y, ok := b.(*ghostMap)
		return ok && typeKey(x.k) == typeKey(y.k) && typeKey(x.v) == typeKey(y.v)
	}
	if _, ok := b.(*ghostMap); ok {
		return false
	}
	return typeKey(types.Unalias(a)) == typeKey(types.Unalias(b))
}
