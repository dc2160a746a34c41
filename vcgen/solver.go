package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// proc is one incremental solver process.  A light process is not given quantified facts; it only
// answers whether a path may be taken, where saying yes too often does no harm.
type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	dead  bool
	light bool
}

// Solver keeps incremental z3 processes plus a log from which stand-alone queries are rebuilt.
// procs[0] answers single queries; the others hold the same assertions and share batches of goals.
type Solver struct {
	procs []*proc
	light *proc
	decls []*declEntry
	byN   map[string]*declEntry
	facts []string // global facts (type facts, axioms), asserted at the base level
	path  []string // current assertion stack
	marks []int
	pend  []string // facts produced while inside a scope; re-asserted at every level
	bin   string
	mu    sync.Mutex

	nFeas, nVC int
	Time       map[string]time.Duration
	Count      map[string]int
	opt        *Options
}

type declEntry struct {
	text string
	idx  int
}

var solverSem = make(chan struct{}, 8)

func newSolver(opt *Options) *Solver {
	s := &Solver{byN: map[string]*declEntry{}, bin: "z3-new", Time: map[string]time.Duration{}, Count: map[string]int{}, opt: opt}
	n := opt.Mirrors
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		p := &proc{}
		s.procs = append(s.procs, p)
		s.start(p)
	}
	s.light = &proc{light: true}
	s.start(s.light)
	return s
}

func (s *Solver) all(f func(*proc)) {
	for _, p := range s.procs {
		f(p)
	}
	f(s.light)
}

func (s *Solver) start(p *proc) {
	p.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:4000")
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.cmd.Stderr = nil
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	p.dead = false
	s.tell(p, "(set-option :global-declarations true)")
	s.tell(p, "(set-option :smt.random_seed 1)")
}

// restart replays everything after the process died or was killed.
func (s *Solver) restart(p *proc) {
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	s.start(p)
	for _, d := range s.decls {
		s.tell(p, d.text)
	}
	for _, f := range s.facts {
		s.tell(p, "(assert "+f+")")
	}
	m := 0
	for i, a := range s.path {
		for m < len(s.marks) && s.marks[m] == i {
			s.tell(p, "(push 1)")
			m++
		}
		s.tell(p, "(assert "+a+")")
	}
	for m < len(s.marks) {
		s.tell(p, "(push 1)")
		m++
	}
}

func (s *Solver) close() {
	s.all(func(p *proc) {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	})
}

func quantified(x string) bool {
	return strings.Contains(x, "(forall ") || strings.Contains(x, "(exists ")
}

// tell sends a command to one process.
func (s *Solver) tell(p *proc, x string) {
	if p.light {
		switch {
		case strings.HasPrefix(x, "(define-fun-rec "):
			k := sexprKids(x)
			var ps []string
			if k[1] != "()" {
				for _, q := range sexprKids("(x " + k[1][1:]) {
					ps = append(ps, sexprKids("(x " + q[1:])[1])
				}
			}
			x = fmt.Sprintf("(declare-fun %s (%s) %s)", k[0], strings.Join(ps, " "), k[2])
		case strings.HasPrefix(x, "(define-fun ") && quantified(x):
			k := sexprKids(x)
			x = fmt.Sprintf("(declare-const %s %s)", k[0], k[2])
		case quantified(x):
			return
		}
	}
	if s.opt != nil && s.opt.Trace && p == s.procs[0] {
		fmt.Fprintln(os.Stderr, "  >", x)
	}
	io.WriteString(p.in, x+"\n")
}

func (s *Solver) send(x string) {
	s.all(func(p *proc) { s.tell(p, x) })
}

func (s *Solver) decl(name, text string, also ...string) {
	d := &declEntry{text: text, idx: len(s.decls)}
	s.decls = append(s.decls, d)
	if name != "" {
		s.byN[name] = d
	}
	for _, a := range also {
		s.byN[a] = d
	}
	s.send(text)
}

func (s *Solver) alias(n, of string) { s.byN[n] = s.byN[of] }

// fact asserts something true in every state.  z3 drops assertions made inside a scope when the
// scope is popped, so facts are kept and asserted again.
func (s *Solver) fact(f string) {
	s.facts = append(s.facts, f)
	s.send("(assert " + f + ")")
	if len(s.marks) > 0 {
		s.pend = append(s.pend, f)
	}
}

func (s *Solver) push() {
	s.marks = append(s.marks, len(s.path))
	s.send("(push 1)")
}

func (s *Solver) pop() {
	n := s.marks[len(s.marks)-1]
	s.marks = s.marks[:len(s.marks)-1]
	s.path = s.path[:n]
	s.send("(pop 1)")
	for _, f := range s.pend {
		s.send("(assert " + f + ")")
	}
	if len(s.marks) == 0 {
		s.pend = nil
	}
}

func (s *Solver) assert(f string) {
	if f == "true" || f == "" {
		return
	}
	s.path = append(s.path, f)
	s.send("(assert " + f + ")")
}

func (s *Solver) checkSat(ms int) string { return s.ask(s.procs[0], "z3-new", ms) }

func (s *Solver) ask(p *proc, label string, ms int) string {
	if p.dead {
		s.restart(p)
	}
	s.tell(p, fmt.Sprintf("(set-option :timeout %d)", ms))
	t := time.Now()
	s.tell(p, "(check-sat)")
	r := s.readLine(p, time.Duration(ms)*time.Millisecond*2+3*time.Second)
	d := time.Since(t)
	s.mu.Lock()
	s.Time[label] += d
	s.Count[label]++
	s.mu.Unlock()
	return r
}

func (s *Solver) readLine(p *proc, limit time.Duration) string {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && (strings.HasPrefix(l, "(error") || l == "") {
				if strings.HasPrefix(l, "(error") {
					fmt.Fprintln(os.Stderr, "solver:", p.light, l)
					ch <- res{"error " + l, nil}
					return
				}
				continue
			}
			ch <- res{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.dead = true
			return "unknown"
		}
		return r.s
	case <-time.After(limit):
		p.cmd.Process.Kill()
		p.dead = true
		<-ch
		return "unknown"
	}
}

// feasible reports whether the current path may be taken.
func (s *Solver) feasible() bool {
	s.nFeas++
	return s.ask(s.light, "z3-new (paths)", s.opt.FeasMS) != "unsat"
}

// proveMany attempts each goal on its own, sharing the work between the processes.
func (s *Solver) proveMany(goals []string, ms int) []bool {
	out := make([]bool, len(goals))
	for _, p := range s.procs {
		if p.dead {
			s.restart(p)
		}
	}
	var next int
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range s.procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(goals) {
					return
				}
				if goals[i] == "true" {
					out[i] = true
					continue
				}
				if p.dead {
					s.restart(p)
				}
				s.tell(p, "(push 1)")
				s.tell(p, "(assert "+not(goals[i])+")")
				out[i] = s.ask(p, "z3-new", ms) == "unsat"
				if !p.dead {
					s.tell(p, "(pop 1)")
					for _, f := range s.pend {
						s.tell(p, "(assert "+f+")")
					}
				}
			}
		}()
	}
	wg.Wait()
	return out
}

type proofResult struct {
	Status string // proved, refuted, unknown
	By     string
	Model  string
	MS     int64
	Detail string
}

// prove checks that goal follows from the current path.
func (s *Solver) prove(goal string, quick bool) proofResult {
	ms := s.opt.QuickMS
	if quick {
		ms = s.opt.InferMS
	}
	return s.proveMS(goal, quick, ms)
}

// proveIn is a proof attempt during invariant inference.
func (s *Solver) proveIn(goal string, ms int) proofResult { return s.proveMS(goal, true, ms) }

func (s *Solver) proveMS(goal string, quick bool, ms int) proofResult {
	if goal == "true" {
		return proofResult{Status: "proved", By: "trivial"}
	}
	t := time.Now()
	s.nVC++
	s.push()
	s.assert(not(goal))
	first := ms
	if !quick && first > 800 {
		first = 800 // most of what is not proved by now is settled faster by the other solvers
	}
	r := s.checkSat(first)
	res := proofResult{By: "z3-new (incremental)"}
	switch r {
	case "unsat":
		res.Status = "proved"
	case "sat":
		res.Status = "refuted"
		if !quick {
			res.Model = s.model()
		}
	default:
		res.Status = "unknown"
		res.Detail = r
		if !quick {
			script := s.script()
			if s.opt.Dump != "" && s.opt.Trace2 {
				os.WriteFile(fmt.Sprintf("%s/slow_%d.smt2", s.opt.Dump, time.Now().UnixNano()), []byte(script), 0o644)
			}
			res = s.fallback(script, s.opt.SlowS)
			if res.Status == "unknown" && ms > first {
				if s.checkSat(2*ms) == "unsat" {
					res = proofResult{Status: "proved", By: "z3-new (incremental)"}
				}
			}
		}
	}
	s.pop()
	res.MS = time.Since(t).Milliseconds()
	if s.opt.Trace2 && res.MS > 300 {
		fmt.Printf("    slow %d ms %s %s quick=%v: %s\n", res.MS, res.Status, res.By, quick, trunc(goal, 300))
	}
	return res
}

func (s *Solver) model() string {
	p := s.procs[0]
	if p.dead {
		return ""
	}
	s.tell(p, "(get-model)")
	s.tell(p, "(echo \"@@end\")")
	var b strings.Builder
	deadline := time.Now().Add(5 * time.Second)
	for time.Now().Before(deadline) {
		l, err := p.out.ReadString('\n')
		if err != nil {
			p.dead = true
			break
		}
		if strings.Contains(l, "@@end") {
			break
		}
		b.WriteString(l)
	}
	m := b.String()
	if len(m) > 20000 {
		m = m[:20000]
	}
	return m
}

// script builds a stand-alone query with only the declarations it needs.
func (s *Solver) script() string {
	need := map[int]bool{}
	var visit func(text string)
	visit = func(text string) {
		for _, tok := range tokens(text) {
			if d, ok := s.byN[tok]; ok && !need[d.idx] {
				need[d.idx] = true
				visit(d.text)
			}
		}
	}
	for _, d := range s.decls[:2] {
		need[d.idx] = true
	}
	for _, a := range s.path {
		visit(a)
	}
	// facts about symbols that matter, to a fixed point
	used := map[int]bool{}
	for {
		changed := false
		for i, f := range s.facts {
			if used[i] {
				continue
			}
			rel := false
			for _, tok := range tokens(f) {
				if d, ok := s.byN[tok]; ok && need[d.idx] && !strings.HasPrefix(d.text, "(declare-datatypes") && !strings.HasPrefix(d.text, "(declare-sort") {
					rel = true
					break
				}
			}
			if rel {
				used[i] = true
				changed = true
				visit(f)
			}
		}
		if !changed {
			break
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, d := range s.decls {
		if need[d.idx] || strings.HasPrefix(d.text, "(assert") && need[s.byN["rune_str"].idx] {
			b.WriteString(d.text + "\n")
		}
	}
	for i, f := range s.facts {
		if used[i] {
			b.WriteString("(assert " + f + ")\n")
		}
	}
	for _, a := range s.path {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func tokens(x string) []string {
	var out []string
	i := 0
	for i < len(x) {
		c := x[i]
		switch {
		case c == '"':
			j := i + 1
			for j < len(x) && x[j] != '"' {
				j++
			}
			i = j + 1
		case c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t':
			i++
		default:
			j := i
			for j < len(x) && x[j] != '(' && x[j] != ')' && x[j] != ' ' && x[j] != '\n' && x[j] != '"' {
				j++
			}
			out = append(out, x[i:j])
			i = j
		}
	}
	return out
}

func (s *Solver) fallback(script string, secs int) proofResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	f, err := os.CreateTemp("", "vc*.smt2")
	if err != nil {
		return proofResult{Status: "unknown", Detail: err.Error()}
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	type job struct {
		name string
		args []string
	}
	jobs := []job{
		{"z3-new", []string{"z3-new", fmt.Sprintf("-T:%d", secs), "-memory:4000", f.Name()}},
		{"z3-4.8", []string{"z3", fmt.Sprintf("-T:%d", secs), "-memory:4000", f.Name()}},
		{"z3-new", []string{"z3-new", fmt.Sprintf("-T:%d", secs), "-memory:4000", "smt.random_seed=7", f.Name()}},
		{"z3-4.8", []string{"z3", fmt.Sprintf("-T:%d", secs), "-memory:4000", "smt.random_seed=11", "smt.mbqi=false", f.Name()}},
		{"cvc5", []string{"cvc5", "--strings-exp", fmt.Sprintf("--tlimit=%d", secs*1000), f.Name()}},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
	defer cancel()
	type ans struct{ name, out string }
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func() {
			t := time.Now()
			o, _ := exec.CommandContext(ctx, j.args[0], j.args[1:]...).Output()
			s.mu.Lock()
			s.Time[j.name] += time.Since(t)
			s.Count[j.name]++
			s.mu.Unlock()
			ch <- ans{j.name, strings.TrimSpace(string(o))}
		}()
	}
	res := proofResult{Status: "unknown"}
	var det []string
	for range jobs {
		a := <-ch
		first := strings.SplitN(a.out, "\n", 2)[0]
		det = append(det, a.name+": "+first)
		if first == "unsat" {
			cancel()
			return proofResult{Status: "proved", By: a.name}
		}
		if first == "sat" {
			res.Status = "refuted"
			res.By = a.name
		}
	}
	res.Detail = strings.Join(det, "; ")
	if s.opt.Dump != "" {
		os.WriteFile(fmt.Sprintf("%s/vc_%d.smt2", s.opt.Dump, time.Now().UnixNano()), []byte(script), 0o644)
	}
	return res
}
