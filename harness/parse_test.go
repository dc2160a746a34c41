package cli_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/Carbonfrost/joe-cli"
)

// ---- reference model of the parser, written from the documented rules only -------------------

type pmCounter struct {
	kind string // "n", "opt", "req", "var", "until", "except", "pred", "pair"
	n    int
	used int
}

func pmLooksFlag(tok string, pf bool) bool { return pf && len(tok) > 1 && tok[0] == '-' }

// take: "ok", "end" (no more for this counter) or "flag" (let it be parsed as a flag first)
func (c *pmCounter) take(tok string, pf bool) string {
	switch c.kind {
	case "n":
		if c.used < c.n {
			c.used++
			return "ok"
		}
		return "end"
	case "opt", "req":
		if c.used == 0 {
			c.used = 1
			return "ok"
		}
		return "end"
	case "var":
		return "ok"
	case "until":
		if pmLooksFlag(tok, pf) {
			return "end"
		}
		return "ok"
	case "except":
		if pmLooksFlag(tok, pf) {
			return "flag"
		}
		return "ok"
	case "pred":
		c.used++
		if c.used == 1 && pmPred(tok) {
			return "ok"
		}
		return "end"
	case "pair":
		if c.used == 0 {
			if pmPairComplete(tok) {
				c.used = 2
			} else {
				c.used = 1
			}
			return "ok"
		}
		if c.used == 1 {
			c.used = 2
			return "ok"
		}
		return "end"
	}
	panic(c.kind)
}

// pmPairComplete: the token itself contains both the name and the value
func pmPairComplete(tok string) bool {
	for i := 0; i < len(tok); i++ {
		if tok[i] == '=' && (i == 0 || tok[i-1] != '\\') {
			return true
		}
	}
	return false
}

func pmPred(s string) bool { return strings.HasPrefix(s, "v") || s == "" || s == "--x" }

func (c *pmCounter) doneOK() bool {
	switch c.kind {
	case "n":
		return c.used >= c.n
	case "req":
		return c.used > 0
	case "pair":
		return c.used > 0
	}
	return true
}

type pmOpt struct {
	name     string
	aliases  []string
	kind     string
	n        int
	optional bool
}

func (o pmOpt) counter() *pmCounter { return &pmCounter{kind: o.kind, n: o.n} }
func (o pmOpt) String() string {
	s := o.name
	if len(o.aliases) > 0 {
		s += "|" + strings.Join(o.aliases, "|")
	}
	s += ":" + o.kind
	if o.kind == "n" {
		s += fmt.Sprint(o.n)
	}
	if o.optional {
		s += "?"
	}
	return s
}

type pmConf struct {
	flags []pmOpt
	args  []pmOpt
	mode  cli.RawParseFlag
}

func (c pmConf) String() string {
	return fmt.Sprintf("flags%v args%v rtl=%v disallow=%v skip=%v", c.flags, c.args, c.mode&cli.RawRTL != 0, c.mode&cli.RawDisallowFlagsAfterArgs != 0, c.mode&cli.RawSkipProgramName != 0)
}

type pmErr struct {
	code   cli.ErrorCode
	name   string
	remain []string
}

func (c pmConf) resolve(s string) (pmOpt, bool) {
	// positional names share the name space
	for i := len(c.args) - 1; i >= 0; i-- {
		if c.args[i].name == s {
			return c.args[i], true
		}
	}
	for i := len(c.flags) - 1; i >= 0; i-- {
		if c.flags[i].name == s {
			return c.flags[i], true
		}
	}
	for i := len(c.flags) - 1; i >= 0; i-- {
		for _, a := range c.flags[i].aliases {
			if a == s {
				return c.flags[i], true
			}
		}
	}
	return pmOpt{}, false
}

func pmDash(s string) string {
	if len(s) == 1 {
		return "-" + s
	}
	return "--" + s
}

// pmParse gives the occurrences that the tokens denote and the error, if any.
func pmParse(c pmConf, toks []string) (map[string][][]string, *pmErr) {
	out := map[string][][]string{"": {toks}}
	pos := 0
	counters := make([]*pmCounter, len(c.args))
	for i, a := range c.args {
		counters[i] = a.counter()
	}
	cur := func() *pmCounter {
		if pos < len(counters) {
			return counters[pos]
		}
		return nil
	}
	expected := func() *pmErr { return &pmErr{code: cli.ExpectedArgument} }
	if len(toks) == 0 {
		if k := cur(); k != nil && !k.doneOK() {
			return out, expected()
		}
		return out, nil
	}
	if c.mode&cli.RawRTL != 0 && len(c.args) > 0 {
		// arguments are given to the last positionals first: going from the right, a positional is
		// used as long as more than one token is left before it
		left := len(toks)
		skip := len(c.args)
		for skip > 0 {
			if k := c.args[skip-1]; k.kind == "n" {
				left -= k.n
			} else {
				left--
			}
			skip--
			if left <= 1 {
				break
			}
		}
		for ; skip > 0; skip-- {
			if k := cur(); k != nil && !k.doneOK() {
				return out, expected()
			}
			pos++
		}
	}
	i := 0
	if c.mode&cli.RawSkipProgramName != 0 {
		i = 1
	}
	onlyArgs, anyArgs := false, false
	rec := func(name string, occ ...string) { out[name] = append(out[name], occ) }
	rest := func() []string { return toks[i:] }
	with := func(first string) []string { return append([]string{first}, rest()...) }
	// values taken by a flag: greedy over the remaining tokens
	takeVals := func(o pmOpt) ([]string, bool) {
		k := o.counter()
		var vals []string
		for i < len(toks) {
			if k.take(toks[i], true) != "ok" {
				break
			}
			vals = append(vals, toks[i])
			i++
		}
		if len(vals) == 0 {
			vals = []string{""}
		}
		return vals, k.doneOK()
	}
tokens:
	for i < len(toks) {
		tok := toks[i]
		i++
		if onlyArgs || !pmLooksFlag(tok, true) {
			for { // positional run
				if tok == "--" {
					onlyArgs = true
					if k := cur(); k != nil && !k.doneOK() {
						return out, expected()
					}
					pos++
					continue tokens
				}
				verdict := "none"
				for cur() != nil {
					verdict = cur().take(tok, !onlyArgs)
					if verdict != "end" {
						break
					}
					verdict = "none"
					pos++
				}
				if verdict != "ok" {
					if pmLooksFlag(tok, !onlyArgs) {
						break // parsed as a flag below
					}
					return out, &pmErr{code: cli.UnexpectedArgument, remain: with(tok)}
				}
				rec(c.args[pos].name, "<"+c.args[pos].name+">", tok)
				if i == len(toks) {
					if !cur().doneOK() {
						return out, &pmErr{code: cli.ExpectedArgument, name: "<" + c.args[pos].name + ">"}
					}
					continue tokens
				}
				tok = toks[i]
				i++
				anyArgs = true
			}
		}
		if tok == "--" {
			onlyArgs = true
			continue
		}
		disallowed := anyArgs && c.mode&cli.RawDisallowFlagsAfterArgs != 0
		if strings.HasPrefix(tok, "--") {
			name, value, eq := strings.Cut(tok[2:], "=")
			o, ok := c.resolve(name)
			if !ok {
				return out, &pmErr{code: cli.UnknownOption, name: pmDash(name), remain: with(pmDash(name))}
			}
			if disallowed {
				return out, &pmErr{code: cli.FlagUsedAfterArgs, name: pmDash(name)}
			}
			if eq {
				rec(o.name, "--"+name, value)
				continue
			}
			old := with(pmDash(name))
			vals, ok := takeVals(o)
			if !ok {
				return out, &pmErr{code: cli.ExpectedArgument, name: pmDash(name), remain: old}
			}
			rec(o.name, append([]string{pmDash(name)}, vals...)...)
			continue
		}
		cluster := tok[1:]
		if disallowed {
			return out, &pmErr{code: cli.FlagUsedAfterArgs, name: pmDash(cluster)}
		}
		for cluster != "" {
			r, w := utf8.DecodeRuneInString(cluster)
			ch := string(r)
			o, ok := c.resolve(ch)
			if !ok {
				n := "-" + ch
				if ch == "-" {
					n = "-"
				}
				return out, &pmErr{code: cli.UnknownOption, name: n, remain: with("-" + cluster)}
			}
			value := cluster[w:]
			if value != "" {
				k := o.counter()
				switch k.take(value, false) {
				case "ok":
					if k.doneOK() {
						rec(o.name, "-"+ch, value)
						continue tokens
					}
					if value[0] == '=' {
						return out, &pmErr{code: cli.InvalidArgument, name: "-" + ch, remain: with("-" + ch + value)}
					}
					return out, &pmErr{code: cli.ExpectedArgument}
				default:
					if value[0] == '=' {
						return out, &pmErr{code: cli.InvalidArgument, name: "-" + ch, remain: with("-" + ch + value)}
					}
					rec(o.name, "-"+ch, "")
					cluster = value
				}
				continue
			}
			cluster = ""
			if o.optional {
				rec(o.name, "-"+ch, "")
				if !o.counter().doneOK() {
					return out, &pmErr{code: cli.ExpectedArgument}
				}
				continue
			}
			old := with("-" + ch)
			vals, ok := takeVals(o)
			if !ok {
				return out, &pmErr{code: cli.ExpectedArgument, name: pmDash(o.name), remain: old}
			}
			rec(o.name, append([]string{"-" + ch}, vals...)...)
		}
	}
	if k := cur(); k != nil && !k.doneOK() {
		return out, expected()
	}
	return out, nil
}

// ---- the binding the real parser is given -----------------------------------------------------

type pmBinding struct {
	c   pmConf
	req map[string]func() cli.ArgCounter
}

// pmRequired makes the counter of an initialised flag or arg that needs a value.
var pmReqMaker, pmPairMaker func() cli.ArgCounter

func pmInit() {
	if pmReqMaker != nil {
		return
	}
	f := &cli.Flag{Name: "f", Value: new(int)}
	p := &cli.Flag{Name: "p", Value: new(cli.NameValue)}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{f, p}, Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
	_ = app.RunContext(context.Background(), []string{"app"})
	pmReqMaker = func() cli.ArgCounter { return cli.ArgCount(f) }
	pmPairMaker = func() cli.ArgCounter { return cli.ArgCount(p) }
}

func (o pmOpt) real() cli.ArgCounter {
	switch o.kind {
	case "n":
		if o.n == 0 {
			return cli.NoArgs()
		}
		return cli.ArgCount(o.n)
	case "opt":
		return cli.ArgCount(cli.TakeUnlessFlag)
	case "var":
		return cli.ArgCount(cli.TakeRemaining)
	case "until":
		return cli.ArgCount(cli.TakeUntilNextFlag)
	case "except":
		return cli.ArgCount(cli.TakeExceptForFlags)
	case "pred":
		return cli.OptionalArg(pmPred)
	case "req":
		return pmReqMaker()
	case "pair":
		return pmPairMaker()
	}
	panic(o.kind)
}

func (b pmBinding) find(name string) (pmOpt, bool) {
	o, ok := b.c.resolve(name)
	return o, ok && o.name == name
}

func (b pmBinding) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	if o, ok := b.find(name); ok {
		return nil, o.real(), nil, true
	}
	return nil, nil, nil, false
}
func (b pmBinding) ResolveAlias(name string) (string, bool) {
	o, ok := b.c.resolve(name)
	return o.name, ok
}
func (b pmBinding) PositionalArgNames() []string {
	var r []string
	for _, a := range b.c.args {
		r = append(r, a.name)
	}
	return r
}
func (b pmBinding) BehaviorFlags(name string) bool { o, _ := b.find(name); return o.optional }
func (b pmBinding) Reset()                         {}

// ---- comparisons ----------------------------------------------------------------------------

func pmShow(m map[string][][]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q ", k, m[k])
	}
	return sb.String()
}

type pmOutcome struct {
	got     map[string][][]string
	err     error
	perr    *cli.ParseError
	want    map[string][][]string
	wantErr *pmErr
}

func pmRun(c pmConf, toks []string) pmOutcome {
	given := append([]string(nil), toks...)
	if toks == nil {
		given = nil
	}
	got, err := cli.RawParse(given, pmBinding{c: c}, c.mode)
	o := pmOutcome{got: map[string][][]string(got), err: err}
	errors.As(err, &o.perr)
	if p, ok := err.(*cli.ParseError); ok {
		o.perr = p
	} else {
		o.perr = nil
	}
	o.want, o.wantErr = pmParse(c, toks)
	if len(given) > 0 && !reflect.DeepEqual(given, toks) {
		o.got["(input changed)"] = [][]string{given}
	}
	return o
}

var (
	pmKinds    = []string{"n", "n", "n", "opt", "req", "var", "until", "except", "pred", "pair"}
	pmFlagKs   = []string{"n", "n", "n", "opt", "req", "req", "until", "except", "pred", "pair", "var"}
	pmTokens   = []string{"", "-", "--", "a", "b", "x", "v1", "k=v", "k\\=v", "-a", "-b", "-ab", "-ba", "-abz", "-a=1", "-z", "-é", "-éa", "-éé=v", "-aé", "--alpha", "--alpha=", "--alpha=v=w", "--a", "--a=q", "--beta", "--beta=1", "--al", "--al=v", "--x", "--nope", "--nope=v", "---", "--=", "--=v", "-\xff", "-1", "cmd", "=", "=v", "-b=", "-bv", "-bx", "-b-", "-a-b"}
	pmLongName = []string{"alpha", "beta", "a", "gamma"}
)

func pmRandConf(v *vf) pmConf {
	r := v.r
	var c pmConf
	names := [][]string{{"alpha", "a", "al"}, {"beta", "b"}, {"é", "é2"}, {"z", "zed"}}
	if r.Intn(4) == 0 {
		names = [][]string{{"a", "alpha"}, {"b", "beta", "x"}, {"c-d", "é"}}
	}
	nf := r.Intn(len(names) + 1)
	for i := 0; i < nf; i++ {
		o := pmOpt{name: names[i][0], kind: vfPick(r, pmFlagKs)}
		k := r.Intn(len(names[i]))
		o.aliases = names[i][1 : 1+k]
		if r.Intn(2) == 0 {
			o.aliases = names[i][1:]
		}
		if o.kind == "n" {
			o.n = r.Intn(4)
			if r.Intn(2) == 0 {
				o.n = 0
			}
		}
		o.optional = r.Intn(4) == 0
		c.flags = append(c.flags, o)
	}
	na := r.Intn(4)
	for i := 0; i < na; i++ {
		o := pmOpt{name: []string{"p", "q", "rr"}[i], kind: vfPick(r, pmKinds)}
		if o.kind == "n" {
			o.n = r.Intn(4)
		}
		c.args = append(c.args, o)
	}
	c.mode = cli.RawParseFlag(0)
	if r.Intn(2) == 0 {
		c.mode |= cli.RawSkipProgramName
	}
	if r.Intn(5) == 0 {
		c.mode |= cli.RawDisallowFlagsAfterArgs
	}
	if r.Intn(5) == 0 {
		c.mode |= cli.RawRTL
	}
	return c
}

func pmRandTokens(v *vf) []string {
	n := v.r.Intn(7)
	toks := make([]string, 0, n)
	for i := 0; i < n; i++ {
		if v.r.Intn(12) == 0 {
			toks = append(toks, vfStr(v.r, []string{"-", "=", "a", "b", "é", "x", " ", "z", "\\", "\xc3"}, 5))
			continue
		}
		if v.r.Intn(10) == 0 {
			toks = append(toks, "-"+vfStr(v.r, []string{"a", "b", "é", "z", "a", "b"}, 7))
			continue
		}
		toks = append(toks, vfPick(v.r, pmTokens))
	}
	return toks
}

func pmDrive(v *vf, f func(c pmConf, toks []string)) {
	pmInit()
	// every short line over a small alphabet, for a few declarations
	small := []string{"-", "--", "x", "-a", "-ab", "-bx", "--beta", "--beta=v", "-b", "--no"}
	decls := []pmConf{
		{flags: []pmOpt{{name: "a", kind: "n"}, {name: "beta", aliases: []string{"b"}, kind: "req"}}, args: []pmOpt{{name: "p", kind: "n", n: 1}, {name: "q", kind: "except"}}},
		{flags: []pmOpt{{name: "a", kind: "n"}, {name: "beta", aliases: []string{"b"}, kind: "until"}}, args: []pmOpt{{name: "p", kind: "until"}, {name: "q", kind: "opt"}}, mode: cli.RawSkipProgramName},
		{flags: []pmOpt{{name: "a", kind: "opt", optional: true}, {name: "beta", aliases: []string{"b"}, kind: "n", n: 2}}, args: []pmOpt{{name: "p", kind: "var"}}, mode: cli.RawDisallowFlagsAfterArgs},
		{flags: []pmOpt{{name: "a", kind: "req"}, {name: "beta", aliases: []string{"b"}, kind: "pair"}}, args: []pmOpt{{name: "p", kind: "opt"}, {name: "q", kind: "n", n: 2}}, mode: cli.RawRTL | cli.RawSkipProgramName},
		{flags: []pmOpt{{name: "a", kind: "n"}, {name: "beta", aliases: []string{"b"}, kind: "req"}}},
	}
	depth := v.n(3, 4)
	for _, c := range decls {
		vfAll(small, depth, func(toks []string) bool { f(c, append([]string(nil), toks...)); return v.fails < 5 })
	}
	for i := v.n(60000, 1500000); i > 0 && !v.timeUp(); i-- {
		f(pmRandConf(v), pmRandTokens(v))
	}
}

func pmInput(c pmConf, toks []string) string { return fmt.Sprintf("%q with %v", toks, c) }

func TestVerifC01(t *testing.T) {
	v := vfNew(t, "occurrences recorded by RawParse", "declared flags/args x parser modes x token lists (short lines exhaustively, then random); on success the recorded occurrences equal those of the reference parser and every token is accounted for once")
	defer v.done()
	pmDrive(v, func(c pmConf, toks []string) {
		v.run(pmInput(c, toks), func() (string, string) {
			o := pmRun(c, toks)
			if (o.err == nil) != (o.wantErr == nil) {
				return fmt.Sprintf("error: %v", o.wantErr != nil), fmt.Sprintf("error: %v (%v)", o.err != nil, o.err)
			}
			for name := range o.got {
				if _, ok := (pmBinding{c: c}).find(name); !ok && name != "" {
					return "only declared names", "bound " + name
				}
			}
			if o.err == nil {
				return pmShow(o.want), pmShow(o.got)
			}
			return "", ""
		})
	})
}

func TestVerifC02(t *testing.T) {
	v := vfNew(t, "flag syntax in RawParse", "as C01, failing lines included: rejected lines carry the reference parser's error code, name and remaining tokens")
	defer v.done()
	pmDrive(v, func(c pmConf, toks []string) {
		v.run(pmInput(c, toks), func() (string, string) {
			o := pmRun(c, toks)
			if o.wantErr == nil {
				if o.err != nil {
					return "accepted", o.err.Error()
				}
				return pmShow(o.want), pmShow(o.got)
			}
			if o.perr == nil {
				return "parse error " + o.wantErr.code.String(), fmt.Sprintf("%T %v", o.err, o.err)
			}
			e := fmt.Sprintf("%v name=%q", o.wantErr.code, o.wantErr.name)
			g := fmt.Sprintf("%v name=%q", o.perr.Code, o.perr.Name)
			if o.wantErr.code == cli.UnknownOption || o.wantErr.code == cli.InvalidArgument {
				e += fmt.Sprintf(" remaining=%q", o.wantErr.remain)
				g += fmt.Sprintf(" remaining=%q", o.perr.Remaining)
			}
			return e, g
		})
	})
}

func TestVerifC03Lines(t *testing.T) {
	v := vfNew(t, "tokens taken per count in whole lines", "as C01: the number of values of each occurrence and positional, compared with the reference counters")
	defer v.done()
	pmDrive(v, func(c pmConf, toks []string) {
		v.run(pmInput(c, toks), func() (string, string) {
			o := pmRun(c, toks)
			shape := func(m map[string][][]string, e bool) string {
				var ks []string
				for k, occ := range m {
					if k == "" {
						continue
					}
					s := k
					for _, x := range occ {
						s += fmt.Sprintf(" %d", len(x)-1)
					}
					ks = append(ks, s)
				}
				sort.Strings(ks)
				return fmt.Sprint(ks, " error=", e)
			}
			return shape(o.want, o.wantErr != nil), shape(o.got, o.err != nil)
		})
	})
}

func TestVerifC04(t *testing.T) {
	v := vfNew(t, "shape of parse failures", "as C01 plus random token text: no panic; an error is a ParseError with a message and exit status 2 whose remaining tokens are a tail of the line; what was bound before is returned")
	defer v.done()
	pmDrive(v, func(c pmConf, toks []string) {
		v.run(pmInput(c, toks), func() (string, string) {
			o := pmRun(c, toks)
			if o.err == nil {
				return "", ""
			}
			if o.perr == nil {
				return "a *ParseError", fmt.Sprintf("%T %v", o.err, o.err)
			}
			if o.perr.Error() == "" {
				return "a message", "empty message"
			}
			if o.perr.ExitCode() != 2 {
				return "exit status 2", fmt.Sprint(o.perr.ExitCode())
			}
			rem := o.perr.Remaining
			if len(rem) > 1 {
				tail := rem[1:]
				if len(tail) > len(toks) || !reflect.DeepEqual(append([]string{}, tail...), append([]string{}, toks[len(toks)-len(tail):]...)) {
					return fmt.Sprintf("remaining tokens end like %q", toks), fmt.Sprintf("%q", rem)
				}
			}
			if o.wantErr != nil {
				return pmShow(o.want), pmShow(o.got)
			}
			return "", ""
		})
	})
}

// ---- the same rules through App.RunContext -----------------------------------------------------

func TestVerifC02App(t *testing.T) {
	v := vfNew(t, "flag syntax through App.RunContext", "random declarations as real flags and args x token lists; the bindings seen by the action, or the error code and name, equal the reference parser's")
	defer v.done()
	pmInit()
	flagKinds := []string{"bool", "string", "optional", "list", "pair"}
	argKinds := []string{"n", "opt", "var", "until", "except", "list"}
	for i := v.n(25000, 400000); i > 0 && !v.timeUp(); i-- {
		r := v.r
		var c pmConf
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
		names := [][]string{{"alpha", "a", "al"}, {"beta", "b"}, {"gamma", "é", "g"}, {"z", "zed"}}
		desc := ""
		for k, nf := 0, r.Intn(5); k < nf; k++ {
			o := pmOpt{name: names[k][0], aliases: names[k][1:]}
			f := &cli.Flag{Name: o.name, Aliases: o.aliases}
			fk := vfPick(r, flagKinds)
			desc += " --" + o.name + ":" + fk
			switch fk {
			case "bool":
				f.Value, o.kind = new(bool), "n"
			case "string":
				f.Value, o.kind = new(string), "req"
			case "optional":
				f.Value, o.kind, o.optional = new(string), "opt", true
				f.Uses = cli.OptionalValue("def")
			case "list":
				f.Value, o.kind = new([]string), "until"
			case "pair":
				f.Value, o.kind = new(cli.NameValue), "pair"
			}
			if r.Intn(4) == 0 {
				// any options that do not concern parsing
				f.Options |= vfPick(r, []cli.Option{cli.Hidden, cli.NonPersistent, cli.Merge, cli.DisableSplitting, cli.Visible})
			}
			app.Flags = append(app.Flags, f)
			c.flags = append(c.flags, o)
		}
		for k, na := 0, r.Intn(4); k < na; k++ {
			o := pmOpt{name: []string{"p", "q", "rr"}[k]}
			a := &cli.Arg{Name: o.name}
			o.kind = vfPick(r, argKinds)
			a.Value = new([]string)
			switch o.kind {
			case "n":
				o.n = 1 + r.Intn(3)
				a.NArg = o.n
			case "opt":
				a.NArg = 0
				if r.Intn(2) == 0 {
					a.NArg = nil
					a.Value = new(string)
				}
			case "var":
				a.NArg = cli.TakeRemaining
			case "until":
				a.NArg = cli.TakeUntilNextFlag
			case "except":
				a.NArg = cli.TakeExceptForFlags
			case "list":
				o.kind = "until"
			}
			desc += " <" + o.name + ">:" + o.kind + fmt.Sprint(o.n)
			app.Args = append(app.Args, a)
			c.args = append(c.args, o)
		}
		c.mode = cli.RawSkipProgramName
		if r.Intn(5) == 0 {
			c.mode |= cli.RawDisallowFlagsAfterArgs
			app.Options |= cli.DisallowFlagsAfterArgs
			desc += " DisallowFlagsAfterArgs"
		}
		if r.Intn(6) == 0 {
			c.mode |= cli.RawRTL
			app.Options |= cli.RightToLeft
			desc += " RightToLeft"
		}
		got := map[string][][]string{}
		acted := false
		app.Action = func(ctx *cli.Context) {
			acted = true
			for _, o := range append(append([]pmOpt(nil), c.flags...), c.args...) {
				if x := ctx.BindingLookup().Bindings(o.name); len(x) > 0 {
					got[o.name] = x
				}
			}
		}
		toks := append([]string{"app"}, pmRandTokens(v)...)
		want, wantErr := pmParse(c, toks)
		delete(want, "")
		conv := false // a value that a Boolean flag cannot take
		for _, o := range c.flags {
			if o.kind == "n" {
				for _, occ := range want[o.name] {
					if len(occ) > 1 && occ[1] != "" {
						conv = true
					}
				}
			}
			if o.kind == "pair" {
				for _, occ := range want[o.name] {
					if len(occ) < 2 || strings.Contains(strings.Join(occ, ""), "\\") {
						conv = true
					}
				}
			}
		}
		if conv {
			continue
		}
		v.run(fmt.Sprintf("%q with%s", toks, desc), func() (string, string) {
			err := app.RunContext(context.Background(), toks)
			if wantErr != nil {
				p, ok := err.(*cli.ParseError)
				if !ok {
					return "parse error " + wantErr.code.String(), fmt.Sprintf("%T %v", err, err)
				}
				return fmt.Sprint(wantErr.code, " ", wantErr.name, " ", false), fmt.Sprint(p.Code, " ", p.Name, " ", acted)
			}
			if err != nil {
				return "accepted " + pmShow(want), "error " + err.Error()
			}
			return pmShow(want), pmShow(got)
		})
	}
}
