package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop cuts.  With "opt cut" the body of a loop of the function under proof is explored once from
// a state that covers every way of arriving at the loop, instead of once per arriving path.  What
// differs between arrivals is replaced by an arbitrary value of the same type; only the facts that
// all arrivals share and the loop invariants (which every arrival has to establish) remain.

type arrival struct {
	st   *State
	phis map[*ssa.Phi]Val
	path []string
}

type cutPoint struct {
	li       *loopInfo
	l        *natLoop
	block    *ssa.BasicBlock
	arrivals []*arrival
}

func (v *Verifier) deferLoop(st *State, l *natLoop, li *loopInfo, b *ssa.BasicBlock, phis map[*ssa.Phi]Val) {
	cp := v.cuts[li.key]
	if cp == nil {
		cp = &cutPoint{li: li, l: l, block: b}
		v.cuts[li.key] = cp
	}
	ph := map[*ssa.Phi]Val{}
	for k, x := range phis {
		ph[k] = x
	}
	cp.arrivals = append(cp.arrivals, &arrival{st: st.clone(), phis: ph, path: append([]string(nil), v.sv.path...)})
}

// runCuts explores the loops that were reached, outer and earlier ones first.
func (v *Verifier) runCuts() {
	for len(v.cuts) > 0 && !v.stop {
		var best *cutPoint
		for _, cp := range v.cuts {
			if best == nil || v.prog.rpo(v.fn)[cp.block] < v.prog.rpo(v.fn)[best.block] {
				best = cp
			}
		}
		delete(v.cuts, best.li.key)
		v.exploreCut(best)
	}
}

func (v *Verifier) exploreCut(cp *cutPoint) {
	groups := [][]*arrival{cp.arrivals}
	for len(groups) > 0 {
		g := groups[0]
		groups = groups[1:]
		common := append([]string(nil), g[0].path...)
		for _, a := range g[1:] {
			n := 0
			for n < len(common) && n < len(a.path) && common[n] == a.path[n] {
				n++
			}
			common = common[:n]
		}
		base := 0
		for base < len(common) && base < len(v.sv.path) && common[base] == v.sv.path[base] {
			base++
		}
		v.sv.push()
		for _, f := range common[base:] {
			v.sv.assert(f)
		}
		m := &merger{v: v, li: cp.li, memo: map[string]string{}}
		st, phis, ok := m.states(g)
		if !ok {
			v.sv.pop()
			if len(g) == 1 {
				panic(unsupported("cannot merge a single arrival"))
			}
			for _, a := range g {
				groups = append(groups, []*arrival{a})
			}
			continue
		}
		pre := st.snapshot()
		v.loopHavoc(st, pre, cp.li, cp.l, phis)
		f := st.frame
		for p, x := range phis {
			f.env[p] = x
		}
		i := 0
		for i < len(cp.block.Instrs) {
			if _, ok := cp.block.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
		v.run(st, cp.block, i)
		v.sv.pop()
	}
}

// rpo numbers the blocks of a function in reverse postorder.
func (p *Program) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rpoCache == nil {
		p.rpoCache = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	if m, ok := p.rpoCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	n := len(fn.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		n--
		m[b] = n
	}
	dfs(fn.Blocks[0])
	p.rpoCache[fn] = m
	return m
}

// noteGen records that arrivals at a loop differ in a heap array.
func (v *Verifier) noteGen(li *loopInfo, k string) {
	if li.gen == nil {
		li.gen = map[string]bool{}
	}
	if !li.gen[k] {
		li.gen[k] = true
		v.changed = true
	}
}

type merger struct {
	v    *Verifier
	li   *loopInfo
	memo map[string]string
	todo []Term
	bad  bool
}

func (m *merger) states(g []*arrival) (*State, map[*ssa.Phi]Val, bool) {
	v := m.v
	if len(g) == 1 {
		st := g[0].st.clone()
		return st, g[0].phis, true
	}
	a0 := g[0].st
	st := a0.clone()
	// allocation
	als := make([]string, len(g))
	for i, a := range g {
		als[i] = a.st.alloc
	}
	if !allSame(als) {
		st.alloc = v.fresh("alloc", "Int")
		v.sv.assert("(<= " + v.alloc0 + " " + st.alloc + ")")
		m.memo[strings.Join(als, "\x00")] = st.alloc
		v.noteMod(st, "alloc")
	}
	// heap
	keys := map[string]bool{}
	hv := make([]string, len(g))
	for i, a := range g {
		for k := range a.st.heap {
			keys[k] = true
		}
		hv[i] = a.st.heap["#havoc"]
	}
	delete(keys, "#havoc")
	if !allSame(hv) {
		st.heap["#havoc"] = v.fresh("alloc", "Int")
	}
	for _, k := range sortedKeys(keys) {
		xs := make([]string, len(g))
		missing := false
		for i, a := range g {
			h, ok := a.st.heap[k]
			if !ok {
				if hv[i] != "" {
					missing = true
					continue
				}
				switch {
				case strings.HasPrefix(k, "GV|"):
					h = "gv_" + v.so.ident(k)
				case strings.HasPrefix(k, "G|"):
					h = "G0_" + k[2:]
				default:
					h = "H0_" + v.so.ident("heap:"+k)
				}
			}
			xs[i] = h
		}
		if missing {
			if strings.HasPrefix(k, "G") {
				return nil, nil, false
			}
			delete(st.heap, k)
			if st.heap["#havoc"] == hv[0] { // some arrivals forgot this key, others never read it
				st.heap["#havoc"] = v.fresh("alloc", "Int")
			}
			continue
		}
		if allSame(xs) {
			st.heap[k] = xs[0]
			continue
		}
		var srt string
		switch {
		case strings.HasPrefix(k, "GV|"):
			return nil, nil, false
		case strings.HasPrefix(k, "G|"):
			srt = v.so.sort(v.ghostType(k[2:]))
		default:
			srt = v.heapSort(k)
		}
		if srt == "" {
			return nil, nil, false
		}
		st.heap[k] = v.fresh("Hm", srt)
		if strings.HasPrefix(k, "G|") {
			v.noteMod(st, "G:"+k[2:])
		} else {
			v.noteMod(st, "h:"+k+"|"+srt)
			v.noteGen(m.li, "h:"+k+"|"+srt)
		}
	}
	// cells
	for _, id := range sortedKeys(a0.cells) {
		c := *a0.cells[id]
		var vs []Val
		for _, a := range g {
			x := a.st.cells[id]
			if x == nil || x.Escaped != c.Escaped {
				return nil, nil, false
			}
			vs = append(vs, x.V)
		}
		if c.Escaped == "" {
			c.V = m.val(vs, c.T)
		}
		st.cells[id] = &c
	}
	// frame
	fs := make([]*Frame, len(g))
	for i, a := range g {
		fs[i] = a.st.frame
		if fs[i].caller != nil || len(fs[i].loops) != len(fs[0].loops) || len(fs[i].defers) != len(fs[0].defers) {
			return nil, nil, false
		}
		for j := range fs[i].loops {
			if fs[i].loops[j] != fs[0].loops[j] {
				return nil, nil, false
			}
		}
	}
	nf := st.frame
	for _, x := range sortedEnv(fs[0].env) {
		var vs []Val
		for _, f := range fs {
			y, ok := f.env[x]
			if !ok {
				vs = nil
				break
			}
			vs = append(vs, y)
		}
		if vs == nil {
			delete(nf.env, x)
			continue
		}
		nf.env[x] = m.val(vs, x.Type())
	}
	for j := range nf.defers {
		for _, f := range fs {
			d := f.defers[j]
			if d.ins != fs[0].defers[j].ins {
				return nil, nil, false
			}
		}
		d := nf.defers[j]
		var fvs []Val
		for _, f := range fs {
			fvs = append(fvs, f.defers[j].fv)
		}
		if fvs[0] != nil {
			d.fv = m.val(fvs, nil)
		}
		args := make([]Val, len(d.args))
		for k := range d.args {
			var as []Val
			for _, f := range fs {
				as = append(as, f.defers[j].args[k])
			}
			args[k] = m.val(as, nil)
		}
		d.args = args
		nf.defers[j] = d
	}
	phis := map[*ssa.Phi]Val{}
	for p := range g[0].phis {
		var vs []Val
		for _, a := range g {
			vs = append(vs, a.phis[p])
		}
		phis[p] = m.val(vs, p.Type())
	}
	if m.bad {
		return nil, nil, false
	}
	for _, t := range m.todo {
		v.sv.assert(v.wf(st, t))
	}
	st.trace = append([]string(nil), fmt.Sprintf("[%d arrivals]", len(g)))
	return st, phis, true
}

func sortedEnv(e map[ssa.Value]Val) []ssa.Value {
	var out []ssa.Value
	for k := range e {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Name() != out[j].Name() {
			return out[i].Name() < out[j].Name()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func allSame(xs []string) bool {
	for _, x := range xs {
		if x != xs[0] {
			return false
		}
	}
	return true
}

// val merges the values one variable has in the different arrivals.
func (m *merger) val(vs []Val, t types.Type) Val {
	if m.bad {
		return vs[0]
	}
	switch x := vs[0].(type) {
	case nil:
		for _, y := range vs {
			if y != nil {
				m.bad = true
			}
		}
		return nil
	case Term:
		ss := make([]string, len(vs))
		for i, y := range vs {
			z, ok := y.(Term)
			if !ok {
				m.bad = true
				return x
			}
			ss[i] = z.S
		}
		if t == nil {
			t = x.T
		}
		if _, g := x.T.(*ghostMap); g {
			t = x.T
		}
		if allSame(ss) {
			if _, g := t.(*ghostMap); !g && t != types.Typ[types.UntypedNil] {
				m.todo = append(m.todo, Term{x.S, t})
			}
			return x
		}
		k := strings.Join(ss, "\x00")
		if n, ok := m.memo[k]; ok {
			return Term{n, t}
		}
		n := m.v.fresh("mg", m.v.so.sort(t))
		m.memo[k] = n
		if _, g := t.(*ghostMap); !g {
			m.todo = append(m.todo, Term{n, t})
		}
		return Term{n, t}
	case Iface:
		vv := make([]Val, len(vs))
		for i, y := range vs {
			z, ok := y.(Iface)
			if !ok || (z.Dyn == nil) != (x.Dyn == nil) || z.Dyn != nil && !types.Identical(z.Dyn, x.Dyn) {
				// different dynamic types: an arbitrary interface value
				m.bad = true
				return x
			}
			vv[i] = z.V
		}
		if x.Dyn == nil {
			return x
		}
		x.V = m.val(vv, x.Dyn)
		return x
	case Closure:
		n := x
		n.Bind = make([]Val, len(x.Bind))
		for j := range x.Bind {
			var bs []Val
			for _, y := range vs {
				z, ok := y.(Closure)
				if !ok || z.Fn != x.Fn {
					m.bad = true
					return x
				}
				bs = append(bs, z.Bind[j])
			}
			n.Bind[j] = m.val(bs, x.Fn.FreeVars[j].Type())
		}
		for _, y := range vs {
			if z, ok := y.(Closure); !ok || z.Fn != x.Fn {
				m.bad = true
			}
		}
		return n
	case Tuple:
		n := make(Tuple, len(x))
		for j := range x {
			var bs []Val
			for _, y := range vs {
				z, ok := y.(Tuple)
				if !ok || len(z) != len(x) {
					m.bad = true
					return x
				}
				bs = append(bs, z[j])
			}
			var et types.Type
			if tt, ok := t.(*types.Tuple); ok && j < tt.Len() {
				et = tt.At(j).Type()
			}
			n[j] = m.val(bs, et)
		}
		return n
	case StructVal:
		n := StructVal{T: x.T}
		s, _ := structOf(x.T)
		for j := range x.F {
			var bs []Val
			for _, y := range vs {
				z, ok := y.(StructVal)
				if !ok || len(z.F) != len(x.F) {
					m.bad = true
					return x
				}
				bs = append(bs, z.F[j])
			}
			n.F = append(n.F, m.val(bs, s.Field(j).Type()))
		}
		return n
	case ArrayVal:
		n := ArrayVal{T: x.T}
		et := x.T.Underlying().(*types.Array).Elem()
		for j := range x.E {
			var bs []Val
			for _, y := range vs {
				z, ok := y.(ArrayVal)
				if !ok || len(z.E) != len(x.E) {
					m.bad = true
					return x
				}
				bs = append(bs, z.E[j])
			}
			n.E = append(n.E, m.val(bs, et))
		}
		return n
	}
	// everything else has to be the same
	s := fmt.Sprintf("%#v", vs[0])
	for _, y := range vs[1:] {
		if fmt.Sprintf("%#v", y) != s {
			m.bad = true
		}
	}
	return vs[0]
}
