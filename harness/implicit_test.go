package cli_test

import (
	"context"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/Carbonfrost/joe-cli"
)

// vfEnvName is the documented meaning of {}: the long name in upper case with underscores, set apart
// from other text by an underscore.
func vfEnvName(pattern, long string) string {
	parts := strings.Split(pattern, "{}")
	name := strings.ToUpper(strings.ReplaceAll(strings.Trim(long, "-"), "-", "_"))
	if len(parts) == 1 {
		return pattern
	}
	out := ""
	for i, p := range parts {
		out += p
		if i == len(parts)-1 {
			break
		}
		// text before or after this {}
		before := strings.Join(parts[:i+1], "{}")
		after := strings.Join(parts[i+1:], "{}")
		if before != "" {
			out += "_"
		}
		out += name
		if after != "" {
			out += "_"
		}
	}
	return out
}

type vfImpl struct {
	kind    string // what holds the value
	opt     string // flag, persistent, arg
	name    string
	aliases []string
	vars    []string
	env     map[string]string
	file    string            // FilePath
	files   map[string]string // those there are
	def     string
	given   []string // on the command line
	sub     bool     // a sub-command follows
	late    bool     // a persistent flag is given to the sub-command
	implied string   // the value another flag implies
	implier bool     // and whether that one is given
	after   bool     // after the flag
	extra   []string // ImplicitValue in Uses, in order; empty for no value
	action  bool     // FromEnv and FromFilePath rather than fields
}

func (p *vfImpl) String() string { return fmt.Sprintf("%+v", *p) }

func (p *vfImpl) dest() any {
	switch p.kind {
	case "string":
		return cli.String()
	case "int":
		return cli.Int()
	case "bool":
		return cli.Bool()
	}
	return cli.List()
}

func (p *vfImpl) show(v any) string {
	switch x := v.(type) {
	case []string:
		return strings.Join(x, "+")
	}
	return fmt.Sprint(v)
}

func vfImplShow(kind, text string) string {
	if kind == "list" {
		return strings.ReplaceAll(text, ",", "+")
	}
	return text
}

func (p *vfImpl) expected() (value string, occ int, implicit bool) {
	long := p.name
	for _, a := range append([]string{p.name}, p.aliases...) {
		if len([]rune(a)) > 1 {
			long = a
			break
		}
	}
	if len(p.given) > 0 {
		if p.kind == "list" {
			return vfImplShow("list", strings.Join(p.given, ",")), len(p.given), false
		}
		return p.given[len(p.given)-1], len(p.given), false
	}
	for _, x := range p.extra {
		if x != "" {
			return vfImplShow(p.kind, x), 0, true
		}
	}
	for _, v := range p.vars {
		if t := p.env[vfEnvName(v, long)]; t != "" {
			return vfImplShow(p.kind, t), 0, true
		}
	}
	if t, ok := p.files[p.file]; ok && p.file != "" {
		return vfImplShow(p.kind, t), 0, true
	}
	if p.implied != "" && p.implier {
		return vfImplShow(p.kind, p.implied), 0, true
	}
	return vfImplShow(p.kind, p.def), 0, false
}

func (p *vfImpl) run() (string, string) {
	all := []string{}
	defer func() {
		for _, k := range all {
			os.Unsetenv(k)
		}
	}()
	for k, v := range p.env {
		os.Setenv(k, v)
		all = append(all, k)
	}
	fsys := fstest.MapFS{}
	for k, v := range p.files {
		fsys[k] = &fstest.MapFile{Data: []byte(v)}
	}
	dest := p.dest()
	if p.def != "" {
		if l, ok := dest.(*[]string); ok {
			*l = strings.Split(p.def, ",")
		} else {
			cli.Set(dest, p.def)
		}
	}
	var got string
	observe := func(c *cli.Context) error {
		nm := any(p.name)
		occ, seen := c.Occurrences(nm), c.Seen(nm)
		got = fmt.Sprintf("value %s occurrences %d seen %v", p.show(c.Value(nm)), occ, seen)
		return nil
	}
	during := ""
	uses := cli.Pipeline()
	for _, x := range p.extra {
		x := x
		uses = uses.Append(cli.ImplicitValue(func(*cli.Context) (string, bool) { return x, x != "" }))
	}
	if p.action {
		uses = uses.Append(cli.FromEnv(p.vars...))
		uses = uses.Append(cli.FromFilePath(nil, p.file))
	}
	uses = uses.Append(cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error { during = fmt.Sprint(c.ImplicitlySet()); return nil })))
	app := &cli.App{Name: "app", FS: fsys, Stdout: io.Discard, Stderr: io.Discard, Action: observe}
	if p.sub {
		app.Action = nil
		app.Commands = []*cli.Command{{Name: "sub", Action: observe}}
	}
	f := &cli.Flag{Name: p.name, Aliases: p.aliases, Value: dest, Uses: uses}
	a := &cli.Arg{Name: p.name, Value: dest, Uses: uses, NArg: cli.OptionalArg(nil)}
	if !p.action {
		f.EnvVars, f.FilePath, a.EnvVars, a.FilePath = p.vars, p.file, p.vars, p.file
	}
	other := &cli.Flag{Name: "other", Value: cli.Bool(), Uses: cli.Implies(p.name, p.implied)}
	if p.implied == "" {
		other.Uses = nil
	}
	if p.opt == "arg" {
		app.Args = []*cli.Arg{a}
		app.Flags = []*cli.Flag{other}
	} else {
		app.Flags = []*cli.Flag{f, other}
		if p.after {
			app.Flags = []*cli.Flag{other, f}
		}
	}
	line := []string{"app"}
	var opts []string
	for _, g := range p.given {
		switch {
		case p.opt == "arg":
			opts = append(opts, g)
		case p.kind == "bool":
			opts = append(opts, strings.Repeat("-", min(2, len(p.name)))+p.name)
		case len([]rune(p.name)) == 1 && p.kind == "list": // a separate one would take what follows, too
			opts = append(opts, "-"+p.name+g)
		case len([]rune(p.name)) == 1:
			opts = append(opts, "-"+p.name, g)
		default:
			opts = append(opts, "--"+p.name+"="+g)
		}
	}
	if p.implier {
		if p.after || p.opt == "arg" {
			line = append(line, "--other")
		}
	}
	if !p.late {
		line = append(line, opts...)
	}
	if p.implier && !(p.after || p.opt == "arg") {
		line = append(line, "--other")
	}
	if p.sub {
		line = append(line, "sub")
	}
	if p.late {
		line = append(line, opts...)
	}
	if err := app.RunContext(context.Background(), line); err != nil {
		return "no error", err.Error()
	}
	value, occ, implicit := p.expected()
	want := fmt.Sprintf("value %s occurrences %d seen %v", value, occ, occ > 0)
	if during != "" && !p.late {
		want += " implicitly set " + fmt.Sprint(implicit)
		got += " implicitly set " + during
	}
	if want != got {
		return want, got + " (line " + strings.Join(line, " ") + ")"
	}
	return "", ""
}

func TestVerifC13(t *testing.T) {
	v := vfNew(t, "C13.sources", "explicit, then the first non-empty variable, then the file, then the default; Occurrences counts the command line only")
	texts := map[string][]string{"string": {"x", "yy", "z w", "0", "-q"}, "int": {"1", "22", "1000", "-4"}, "bool": {"true"}, "list": {"a", "a,b", "c,d,e"}}
	for !v.timeUp() && v.evals < v.n(15000, 400000) {
		p := &vfImpl{kind: vfPick(v.r, []string{"string", "int", "bool", "list"}), opt: vfPick(v.r, []string{"flag", "flag", "arg"})}
		tx := texts[p.kind]
		p.name = vfPick(v.r, []string{"flag", "flag-name", "n", "a-b-c"})
		if p.opt == "arg" {
			p.name = vfPick(v.r, []string{"name", "arg-name"})
		} else if v.r.Intn(3) == 0 {
			p.aliases = vfPick(v.r, [][]string{{"m", "long-one"}, {"second", "third"}, {"k"}})
		}
		pats := []string{"VF_A", "VF_B", "VFX{}", "VFX{}Y", "VF_C", "{}_VF", "VF{}Q{}"}
		v.r.Shuffle(len(pats), func(i, j int) { pats[i], pats[j] = pats[j], pats[i] })
		p.vars = pats[:v.r.Intn(4)]
		p.env = map[string]string{}
		long := p.name
		for _, a := range append([]string{p.name}, p.aliases...) {
			if len(a) > 1 {
				long = a
				break
			}
		}
		for _, x := range p.vars {
			switch v.r.Intn(4) {
			case 0:
				p.env[vfEnvName(x, long)] = vfPick(v.r, tx)
			case 1:
				p.env[vfEnvName(x, long)] = ""
			case 2: // not a name the documentation gives
				p.env[strings.ReplaceAll(x, "{}", "FLAG")+"Z"] = vfPick(v.r, tx)
			}
		}
		p.files = map[string]string{}
		if v.r.Intn(2) == 0 {
			p.file = vfPick(v.r, []string{"f.txt", "dir/g"})
			if v.r.Intn(2) == 0 {
				p.files[p.file] = vfPick(v.r, tx)
			}
			if v.r.Intn(3) == 0 {
				p.files["other"] = "1"
			}
		}
		if p.kind != "bool" && v.r.Intn(2) == 0 {
			p.def = vfPick(v.r, tx)
		} else if p.kind == "int" {
			p.def = "0"
		} else if p.kind == "bool" {
			p.def = "false"
		}
		p.sub = p.opt == "flag" && v.r.Intn(3) == 0
		p.late = p.sub && v.r.Intn(2) == 0
		if v.r.Intn(3) == 0 {
			for i := 0; i < 1+v.r.Intn(2) && (i == 0 || p.opt != "arg"); i++ {
				g := vfPick(v.r, tx)
				if strings.HasPrefix(g, "-") || p.opt == "arg" && strings.Contains(g, " ") {
					g = tx[0]
				}
				p.given = append(p.given, g)
			}
		}
		if p.opt == "flag" && v.r.Intn(3) == 0 {
			p.implied, p.implier, p.after = vfPick(v.r, tx), v.r.Intn(2) == 0, v.r.Intn(2) == 0
		}
		for v.r.Intn(4) == 0 {
			p.extra = append(p.extra, vfPick(v.r, append([]string{""}, tx...)))
		}
		p.action = v.r.Intn(3) == 0
		if !v.run(p.String(), p.run) && v.timeUp() {
			break
		}
	}
	v.done()
}
