package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- contract files -------------------------------------------------------------------------

type Clause struct {
	Kind   string // requires, ensures, inv, modifies
	Label  string
	Text   string
	E      *Expr
	Vars   []varDecl // metavariables of a loop invariant candidate
	Props  []string
	Use    string // assumed only by functions that say: opt use NAME
	With   string // a lemma's own opt use
	BV     string // basic types that a lemma takes as bit vectors
	Hints  []*Expr
	Induct string // the variable a lemma is proved by induction on
	Lemma  bool   // a lemma proved separately
	File   string
	Line   int
}

type varDecl struct{ Name, Type string }

type Contract struct {
	Pkg        string
	Key        string // function key, e.g. (*T).M, F, Iface.M, functype:T
	Params     []string
	Results    []string
	Props      []string
	Requires   []*Clause
	Ensures    []*Clause
	Invs       []*Clause
	Effects    []*Clause // ghost updates attached to the function's exit (Label: the ghost)
	Enters     []*Clause // ghost updates attached to the function's entry
	Implements []string
	Modifies   []string
	ModAll     bool
	NoPanic    bool
	Trusted    bool // assumed, not verified (dependencies, interface methods)
	Inline     bool // carries invariants only; callers inline the body
	Why        string
	Quick      bool
	Pure       bool
	Opts       map[string]string
	File       string
	Line       int
}

type Macro struct {
	Name   string
	Params []varDecl
	Ret    string
	Body   *Expr
	Pkg    string
}

type SpecFile struct {
	Pkg string
}

type Specs struct {
	Contracts map[string]*Contract // pkgpath + "." + key
	Order     []*Contract
	Macros    map[string]*Macro
	Types     map[string]*typeAlias
	SMT       []smtDecl
	Ghosts    []ghostDecl
	BV        map[string]bool
	Consts    []string // globals assumed never reassigned
	Asserts   []*Clause
	Lemmas    []*Lemma
}

// Lemma is a closed formula over macros and spec functions, proved without any code.
type Lemma struct {
	Name, Pkg string
	Props     []string
	C         *Clause
	Assumes   []*Clause
}

type smtDecl struct {
	name, text string
	isAxiom    bool
	pkg        string
	params     []string // go types of parameters
	ret        string
}
type ghostDecl struct{ name, typ, pkg string }

type typeAlias struct{ Pkg, Text string }

func parseSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Types: map[string]*typeAlias{}, BV: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		sp.parseFile(f)
	}
	return sp
}

// usable tells whether a fact with this name has been declared.
func (sp *Specs) usable(u string) bool {
	for _, a := range sp.Asserts {
		if a.Use == u {
			return true
		}
	}
	return false
}

func (sp *Specs) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var pkg string
	var cur *Contract
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		raw := lines[i]
		ln := i + 1
		line := strings.TrimSpace(raw)
		if line == "" || strings.HasPrefix(line, "//") {
			continue
		}
		// continuation lines end with a backslash
		for strings.HasSuffix(line, "\\") && i+1 < len(lines) {
			i++
			line = strings.TrimSpace(strings.TrimSuffix(line, "\\")) + " " + strings.TrimSpace(lines[i])
		}
		fail := func(f string, a ...any) {
			panic(fmt.Sprintf("%s:%d: %s", file, ln, fmt.Sprintf(f, a...)))
		}
		word, rest, _ := strings.Cut(line, " ")
		rest = strings.TrimSpace(rest)
		clause := func(kind string) *Clause {
			c := &Clause{Kind: kind, File: filepath.Base(file), Line: ln}
			for strings.HasPrefix(rest, "[") {
				j := matchParen(rest[1:]) + 1
				tag := rest[1:j]
				if kind == "inv" && strings.Contains(tag, "::") {
					break
				}
				rest = strings.TrimSpace(rest[j+1:])
				if u, ok := strings.CutPrefix(tag, "use:"); ok {
					c.Use = u
				} else if u, ok := strings.CutPrefix(tag, "with:"); ok {
					c.With = u
				} else if u, ok := strings.CutPrefix(tag, "bv:"); ok {
					c.BV = u
				} else if u, ok := strings.CutPrefix(tag, "induct:"); ok {
					c.Induct = u
				} else if u, ok := strings.CutPrefix(tag, "hint:"); ok {
					for _, h := range splitTop(u, ',') {
						c.Hints = append(c.Hints, parseExprAt(h, file, ln))
					}
				} else if isPropID(tag) {
					c.Props = append(c.Props, tag)
				} else {
					c.Label = tag
				}
			}
			c.Text = rest
			return c
		}
		switch word {
		case "pkg":
			pkg = rest
			cur = nil
		case "bv":
			sp.BV[pkg+"."+rest] = true
		case "bvabs":
			sp.BV[rest] = true
		case "ghost":
			n, t, _ := strings.Cut(rest, " ")
			sp.Ghosts = append(sp.Ghosts, ghostDecl{n, strings.TrimSpace(t), pkg})
		case "smtfun": // smtfun name(T1, T2) R
			n, r, _ := strings.Cut(rest, "(")
			j := strings.LastIndex(r, ")")
			var ps []string
			for _, p := range splitTop(r[:j], ',') {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			sp.SMT = append(sp.SMT, smtDecl{name: n, params: ps, ret: strings.TrimSpace(r[j+1:]), pkg: pkg})
		case "smtrec": // smtrec name(x T1, y T2) R = expr    (define-fun-rec)
			n, r, _ := strings.Cut(rest, "(")
			head, body, ok := strings.Cut(r, "=")
			if !ok {
				fail("smtrec without body")
			}
			j := strings.LastIndex(head, ")")
			m := &Macro{Name: n, Pkg: pkg, Ret: strings.TrimSpace(head[j+1:])}
			for _, p := range splitTop(head[:j], ',') {
				a, t, _ := strings.Cut(strings.TrimSpace(p), " ")
				m.Params = append(m.Params, varDecl{a, strings.TrimSpace(t)})
			}
			m.Body = parseExprAt(body, file, ln)
			sp.Macros["rec:"+n] = m
			sp.SMT = append(sp.SMT, smtDecl{name: n, pkg: pkg, text: "rec"})
		case "axiom":
			c := clause("axiom")
			c.E = parseExprAt(c.Text, file, ln)
			sp.SMT = append(sp.SMT, smtDecl{isAxiom: true, pkg: pkg, name: fmt.Sprintf("axiom@%s:%d", filepath.Base(file), ln)})
			sp.Asserts = append(sp.Asserts, c)
		case "lemma": // lemma [C01] name : expr
			c := clause("lemma")
			n, e, ok := strings.Cut(c.Text, ":")
			if !ok {
				fail("lemma needs name: expr")
			}
			c.E = parseExprAt(strings.TrimSpace(e), file, ln)
			sp.Lemmas = append(sp.Lemmas, &Lemma{Name: strings.TrimSpace(n), Pkg: pkg, Props: c.Props, C: c})
			if c.Use != "" { // once proved, a lemma serves those that ask for it
				for _, u := range strings.Split(c.With, ",") {
					if u == c.Use {
						fail("lemma %s uses itself", n)
					}
					if u != "" && !sp.usable(u) {
						fail("lemma %s uses %s before it is declared", n, u)
					}
				}
				for _, m := range sp.Lemmas[:len(sp.Lemmas)-1] {
					if strings.Contains(","+m.C.With+",", ","+c.Use+",") {
						fail("lemma %s is used before it is declared", n)
					}
				}
				sp.Asserts = append(sp.Asserts, &Clause{Kind: "axiom", Use: c.Use, Text: "lemma " + c.Text, E: c.E, File: c.File, Line: c.Line, Lemma: true})
			}
		case "define": // define name(x T, y T) R = expr
			n, r, _ := strings.Cut(rest, "(")
			j := matchParen(r)
			head := r[:j]
			tail := r[j+1:]
			ret, body, ok := strings.Cut(tail, "=")
			if !ok {
				fail("define without body")
			}
			m := &Macro{Name: n, Pkg: pkg, Ret: strings.TrimSpace(ret)}
			for _, p := range splitTop(head, ',') {
				if p = strings.TrimSpace(p); p == "" {
					continue
				}
				a, t, _ := strings.Cut(p, " ")
				m.Params = append(m.Params, varDecl{a, strings.TrimSpace(t)})
			}
			m.Body = parseExprAt(body, file, ln)
			if sp.Macros[n] != nil {
				fail("duplicate definition %s", n)
			}
			sp.Macros[n] = m
		case "type": // type Name = Go type: a name for a type that has none in the code
			n, t, ok := strings.Cut(rest, "=")
			if n = strings.TrimSpace(n); !ok || sp.Types[n] != nil {
				fail("bad type declaration")
			}
			sp.Types[n] = &typeAlias{pkg, strings.TrimSpace(t)}
		case "const":
			sp.Consts = append(sp.Consts, pkg+"."+rest)
		case "func", "assume", "inline":
			cur = parseHeader(rest, fail)
			cur.Pkg = pkg
			cur.File, cur.Line = filepath.Base(file), ln
			cur.Trusted = word == "assume"
			cur.Inline = word == "inline"
			k := pkg + "." + cur.Key
			if sp.Contracts[k] != nil {
				fail("duplicate contract %s", k)
			}
			sp.Contracts[k] = cur
			sp.Order = append(sp.Order, cur)
		case "requires", "ensures", "inv":
			if cur == nil {
				fail("%s outside func", word)
			}
			c := clause(word)
			if word == "inv" && strings.HasPrefix(c.Text, "[") {
				j := matchParen(c.Text[1:]) + 1
				for _, p := range splitTop(strings.TrimSuffix(strings.TrimSpace(c.Text[1:j]), "::"), ',') {
					a, t, _ := strings.Cut(strings.TrimSpace(p), " ")
					c.Vars = append(c.Vars, varDecl{a, strings.TrimSpace(t)})
				}
				c.Text = strings.TrimSpace(c.Text[j+1:])
			} else if word == "inv" {
				if v, e, ok := cutTop(c.Text, "::"); ok && !strings.HasPrefix(strings.TrimSpace(c.Text), "forall") && !strings.HasPrefix(strings.TrimSpace(c.Text), "exists") {
					for _, p := range splitTop(v, ',') {
						a, t, _ := strings.Cut(strings.TrimSpace(p), " ")
						c.Vars = append(c.Vars, varDecl{a, strings.TrimSpace(t)})
					}
					c.Text = strings.TrimSpace(e)
				}
			}
			c.E = parseExprAt(c.Text, file, ln)
			switch word {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "inv":
				cur.Invs = append(cur.Invs, c)
			}
		case "modifies":
			for _, m := range splitTop(rest, ',') {
				m = strings.TrimSpace(m)
				if m == "all" {
					cur.ModAll = true
				} else {
					cur.Modifies = append(cur.Modifies, m)
				}
			}
		case "effect", "enter":
			g, x, ok := strings.Cut(rest, "=")
			if cur == nil || !ok {
				fail("%s needs ghost = expr", word)
			}
			c := &Clause{Kind: word, Label: strings.TrimSpace(g), Text: rest, File: filepath.Base(file), Line: ln}
			c.E = parseExprAt(strings.TrimSpace(x), file, ln)
			if word == "effect" {
				cur.Effects = append(cur.Effects, c)
			} else {
				cur.Enters = append(cur.Enters, c)
			}
		case "implements":
			cur.Implements = append(cur.Implements, strings.Fields(rest)...)
		case "nopanic":
			cur.NoPanic = true
		case "pure":
			cur.Pure = true
		case "props":
			cur.Props = strings.Fields(rest)
		case "why":
			cur.Why = rest
		case "opt":
			a, b, _ := strings.Cut(rest, " ")
			if b == "" {
				b = "1"
			}
			cur.Opts[a] = b
		default:
			fail("unknown directive %q", word)
		}
	}
}

func isPropID(s string) bool {
	return len(s) >= 3 && s[0] >= 'A' && s[0] <= 'Z' && s[1] >= '0' && s[1] <= '9' && s[2] >= '0' && s[2] <= '9'
}

// parseHeader parses  (r *T).M(a, b) (x, y)   or  F(a)   or  Iface.M(self, a) (r)
func parseHeader(h string, fail func(string, ...any)) *Contract {
	c := &Contract{Opts: map[string]string{}}
	h = strings.TrimSpace(h)
	if strings.HasPrefix(h, "(") {
		j := strings.Index(h, ")")
		rt, _, _ := strings.Cut(h[1:j], "[") // type parameters are not part of the key
		recv := strings.Fields(rt)
		var t string
		if len(recv) == 2 {
			c.Params = append(c.Params, recv[0])
			t = recv[1]
		} else {
			c.Params = append(c.Params, "_")
			t = recv[0]
		}
		rest := strings.TrimSpace(h[j+1:])
		if !strings.HasPrefix(rest, ".") {
			rest = "." + rest
		}
		k := strings.Index(rest, "(")
		c.Key = "(" + t + ")" + rest[:k]
		h = rest[k:]
	} else if strings.HasPrefix(h, "\"") {
		k := strings.Index(h[1:], "\"") + 1
		c.Key = h[1:k]
		h = strings.TrimSpace(h[k+1:])
	} else {
		k := strings.Index(h, "(")
		c.Key = strings.TrimSpace(h[:k])
		h = h[k:]
	}
	if strings.HasPrefix(c.Key, "(") && strings.Contains(c.Key, "$") {
		c.Params = nil // a closure has no receiver of its own
	}
	j := matchParen(h[1:]) + 1
	for _, p := range splitTop(h[1:j], ',') {
		if p = strings.TrimSpace(p); p != "" {
			c.Params = append(c.Params, p)
		}
	}
	rest := strings.TrimSpace(h[j+1:])
	rest = strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")")
	for _, p := range splitTop(rest, ',') {
		if p = strings.TrimSpace(p); p != "" {
			c.Results = append(c.Results, p)
		}
	}
	return c
}

// matchParen finds the index of the ) closing an already opened parenthesis.
func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			if d == 0 {
				return i
			}
			d--
		}
	}
	panic("unbalanced: " + s)
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func cutTop(s, sep string) (string, string, bool) {
	d := 0
	for i := 0; i+len(sep) <= len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && s[i:i+len(sep)] == sep {
			return s[:i], s[i+len(sep):], true
		}
	}
	return s, "", false
}

// ---- expressions ----------------------------------------------------------------------------

type Expr struct {
	Op   string // ident int string char un bin call sel index slice assert forall exists cond
	Val  string
	Kids []*Expr
	Vars []varDecl
	Pos  int
}

type exprParser struct {
	toks []tok
	p    int
	src  string
	file string
	line int
}

type tok struct {
	t   token.Token
	lit string
	pos int
}

func parseExprAt(src, file string, line int) *Expr {
	e := &exprParser{src: src, file: file, line: line}
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), nil, 0)
	for {
		pos, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		off := f.Offset(pos)
		// merge  ==>  <==>  ::
		n := len(e.toks)
		if t == token.GTR && n > 0 && e.toks[n-1].t == token.EQL && e.toks[n-1].pos+2 == off {
			if n > 1 && e.toks[n-2].t == token.LSS && e.toks[n-2].pos+1 == e.toks[n-1].pos {
				e.toks = e.toks[:n-2]
				e.toks = append(e.toks, tok{token.ILLEGAL, "<==>", off - 3})
			} else {
				e.toks[n-1] = tok{token.ILLEGAL, "==>", off - 2}
			}
			continue
		}
		if t == token.GTR && n > 1 && e.toks[n-1].t == token.ASSIGN && e.toks[n-2].t == token.LEQ && e.toks[n-2].pos+2 == e.toks[n-1].pos && e.toks[n-1].pos+1 == off {
			e.toks = append(e.toks[:n-2], tok{token.ILLEGAL, "<==>", off - 3})
			continue
		}
		if t == token.COLON && n > 0 && e.toks[n-1].t == token.COLON && e.toks[n-1].pos+1 == off {
			e.toks[n-1] = tok{token.ILLEGAL, "::", off - 1}
			continue
		}
		e.toks = append(e.toks, tok{t, lit, off})
	}
	x := e.expr(0)
	if e.p < len(e.toks) {
		e.fail("trailing input at %q", src[e.toks[e.p].pos:])
	}
	return x
}

func (e *exprParser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: in %q: %s", e.file, e.line, e.src, fmt.Sprintf(f, a...)))
}

func (e *exprParser) peek() tok {
	if e.p < len(e.toks) {
		return e.toks[e.p]
	}
	return tok{t: token.EOF}
}

func (e *exprParser) next() tok { t := e.peek(); e.p++; return t }

func (e *exprParser) expect(t token.Token) tok {
	x := e.next()
	if x.t != t {
		e.fail("expected %v, found %v %q", t, x.t, x.lit)
	}
	return x
}

func prec(t tok) int {
	switch {
	case t.t == token.ILLEGAL && t.lit == "<==>":
		return 1
	case t.t == token.ILLEGAL && t.lit == "==>":
		return 2
	case t.t == token.LOR:
		return 3
	case t.t == token.LAND:
		return 4
	}
	switch t.t {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return 5
	case token.ADD, token.SUB, token.OR, token.XOR:
		return 6
	case token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.AND_NOT:
		return 7
	}
	return 0
}

func (e *exprParser) expr(min int) *Expr {
	x := e.unary()
	for {
		t := e.peek()
		p := prec(t)
		if p == 0 || p < min {
			return x
		}
		e.next()
		op := t.lit
		if t.t != token.ILLEGAL {
			op = t.t.String()
		}
		var r *Expr
		if p == 2 { // right associative
			r = e.expr(p)
		} else {
			r = e.expr(p + 1)
		}
		x = &Expr{Op: "bin", Val: op, Kids: []*Expr{x, r}, Pos: t.pos}
	}
}

func (e *exprParser) unary() *Expr {
	t := e.peek()
	switch t.t {
	case token.NOT, token.SUB, token.XOR, token.MUL, token.AND:
		e.next()
		return &Expr{Op: "un", Val: t.t.String(), Kids: []*Expr{e.unary()}, Pos: t.pos}
	case token.IDENT:
		if t.lit == "forall" || t.lit == "exists" {
			e.next()
			// raw text until ::
			start := e.peek().pos
			for e.peek().lit != "::" {
				if e.next().t == token.EOF {
					e.fail("quantifier without ::")
				}
			}
			end := e.next().pos
			var vs []varDecl
			for _, p := range splitTop(e.src[start:end], ',') {
				a, ty, _ := strings.Cut(strings.TrimSpace(p), " ")
				vs = append(vs, varDecl{a, strings.TrimSpace(ty)})
			}
			body := e.expr(0)
			return &Expr{Op: t.lit, Vars: vs, Kids: []*Expr{body}, Pos: t.pos}
		}
		if t.lit == "let" { // let x = e in body -- written: let x = e :: body
			e.next()
			n := e.expect(token.IDENT)
			e.expect(token.ASSIGN)
			v := e.expr(0)
			if e.next().lit != "::" {
				e.fail("let without ::")
			}
			return &Expr{Op: "let", Val: n.lit, Kids: []*Expr{v, e.expr(0)}, Pos: t.pos}
		}
	}
	return e.postfix(e.primary())
}

func (e *exprParser) primary() *Expr {
	t := e.next()
	switch t.t {
	case token.IDENT:
		return &Expr{Op: "ident", Val: t.lit, Pos: t.pos}
	case token.INT:
		return &Expr{Op: "int", Val: t.lit, Pos: t.pos}
	case token.FLOAT:
		return &Expr{Op: "float", Val: t.lit, Pos: t.pos}
	case token.STRING:
		return &Expr{Op: "string", Val: t.lit, Pos: t.pos}
	case token.CHAR:
		return &Expr{Op: "char", Val: t.lit, Pos: t.pos}
	case token.LPAREN:
		// a parenthesised pointer type used as a conversion is not supported in specs
		x := e.expr(0)
		e.expect(token.RPAREN)
		return x
	case token.IF:
		c := e.expr(0)
		if e.next().lit != "::" {
			e.fail("if c :: a else b")
		}
		a := e.expr(0)
		e.expect(token.ELSE)
		b := e.expr(0)
		return &Expr{Op: "cond", Kids: []*Expr{c, a, b}, Pos: t.pos}
	}
	e.fail("unexpected token %v %q", t.t, t.lit)
	return nil
}

func (e *exprParser) postfix(x *Expr) *Expr {
	for {
		t := e.peek()
		switch t.t {
		case token.PERIOD:
			e.next()
			n := e.next()
			if n.t == token.LPAREN { // type assertion: raw type text
				start := n.pos + 1
				d := 0
				var end int
				for {
					k := e.next()
					if k.t == token.LPAREN {
						d++
					}
					if k.t == token.RPAREN {
						if d == 0 {
							end = k.pos
							break
						}
						d--
					}
					if k.t == token.EOF {
						e.fail("unclosed type assertion")
					}
				}
				x = &Expr{Op: "assert", Val: strings.TrimSpace(e.src[start:end]), Kids: []*Expr{x}, Pos: t.pos}
				continue
			}
			if n.t != token.IDENT && n.t != token.INT {
				e.fail("bad selector %q", n.lit)
			}
			x = &Expr{Op: "sel", Val: n.lit, Kids: []*Expr{x}, Pos: t.pos}
		case token.LBRACK:
			e.next()
			var lo, hi *Expr
			if e.peek().t != token.COLON {
				lo = e.expr(0)
			}
			if e.peek().t == token.COLON {
				e.next()
				if e.peek().t != token.RBRACK {
					hi = e.expr(0)
				}
				e.expect(token.RBRACK)
				x = &Expr{Op: "slice", Kids: []*Expr{x, lo, hi}, Pos: t.pos}
				continue
			}
			e.expect(token.RBRACK)
			x = &Expr{Op: "index", Kids: []*Expr{x, lo}, Pos: t.pos}
		case token.LPAREN:
			e.next()
			var args []*Expr
			// typeis(x, T): second argument is raw type text
			if x.Op == "ident" && (x.Val == "typeis" || x.Val == "box" || x.Val == "unbox" || x.Val == "zero" || x.Val == "implements") {
				var raw string
				if x.Val == "zero" {
					raw = e.rawUntilParen()
				} else {
					args = append(args, e.expr(0))
					if e.peek().t == token.COMMA {
						e.next()
						raw = e.rawUntilParen()
					} else {
						e.expect(token.RPAREN)
					}
				}
				x = &Expr{Op: "call", Val: raw, Kids: append([]*Expr{x}, args...), Pos: t.pos}
				continue
			}
			for e.peek().t != token.RPAREN {
				args = append(args, e.expr(0))
				if e.peek().t == token.COMMA {
					e.next()
				}
			}
			e.next()
			x = &Expr{Op: "call", Kids: append([]*Expr{x}, args...), Pos: t.pos}
		default:
			return x
		}
	}
}

func (e *exprParser) rawUntilParen() string {
	start := e.peek().pos
	d := 0
	for {
		k := e.next()
		if k.t == token.LPAREN {
			d++
		}
		if k.t == token.RPAREN {
			if d == 0 {
				return strings.TrimSpace(e.src[start:k.pos])
			}
			d--
		}
		if k.t == token.EOF {
			e.fail("unclosed type")
		}
	}
}
