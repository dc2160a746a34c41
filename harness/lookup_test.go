package cli_test

import (
	"context"
	"fmt"
	"io"
	"slices"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type vfLookLevel struct {
	cmd   *cli.Command
	flags []*cli.Flag
	args  []*cli.Arg
	subs  []*cli.Command
}

func vfFlagNames(f *cli.Flag) []string { return append([]string{f.Name}, f.Aliases...) }

func vfLookNonPersistent(f *cli.Flag) bool { return f.Options&cli.NonPersistent != 0 }

type vfLook struct {
	levels []*vfLookLevel // root first
}

func (l *vfLook) String() string {
	var sb strings.Builder
	for i, v := range l.levels {
		fmt.Fprintf(&sb, "level %d:", i)
		for _, f := range v.flags {
			fmt.Fprintf(&sb, " -%s", strings.Join(vfFlagNames(f), "/"))
			if vfLookNonPersistent(f) {
				sb.WriteString("(local)")
			}
		}
		for _, a := range v.args {
			fmt.Fprintf(&sb, " <%s>", a.Name)
		}
		for _, c := range v.subs {
			fmt.Fprintf(&sb, " sub:%s", strings.Join(append([]string{c.Name}, c.Aliases...), "/"))
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

func (l *vfLook) flag(level int, name string) *cli.Flag {
	for i := level; i >= 0; i-- {
		for _, f := range l.levels[i].flags {
			if slices.Contains(vfFlagNames(f), name) {
				return f
			}
		}
	}
	return nil
}

func (l *vfLook) arg(level int, name string) *cli.Arg {
	for i := level; i >= 0; i-- {
		for _, a := range l.levels[i].args {
			if a.Name == name {
				return a
			}
		}
	}
	return nil
}

func (l *vfLook) value(level int, name string) any {
	for i := level; i >= 0; i-- {
		for _, f := range l.levels[i].flags {
			if slices.Contains(vfFlagNames(f), name) {
				return *f.Value.(*string)
			}
		}
		for _, a := range l.levels[i].args {
			if a.Name == name {
				return *a.Value.(*string)
			}
		}
	}
	return nil
}

func vfLookGen(v *vf) *vfLook {
	l := &vfLook{}
	depth := 1 + v.r.Intn(3)
	for i := 0; i < depth; i++ {
		lv := &vfLookLevel{}
		pool := []string{"a", "b", "c", "file", "long", "name-x", "other", "q", "zed"}
		v.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		next := func() string { n := pool[0]; pool = pool[1:]; return n }
		if i == 1 && depth == 3 { // an alias here may not be the name of a flag of the root
			for _, f := range l.levels[0].flags {
				if k := slices.Index(pool, f.Name); k >= 0 {
					pool = slices.Delete(pool, k, k+1)
				}
			}
		}
		for k := v.r.Intn(4); k > 0 && len(pool) > 3; k-- {
			f := &cli.Flag{Name: next()}
			for v.r.Intn(2) == 0 && len(pool) > 3 {
				f.Aliases = append(f.Aliases, next())
			}
			// one between that does not persist leaves its name to the one parsing binds, further out
			if v.r.Intn(4) == 0 && !(i == 1 && depth == 3) {
				f.Options = cli.NonPersistent
			}
			f.Value = cli.String()
			*f.Value.(*string) = fmt.Sprintf("flag %d %s", i, f.Name)
			lv.flags = append(lv.flags, f)
		}
		// args and sub-commands do not go together
		for k := v.r.Intn(4); i == depth-1 && k > 0 && len(pool) > 0; k-- {
			a := &cli.Arg{Name: next(), Value: cli.String(), NArg: cli.OptionalArg(nil)}
			*a.Value.(*string) = fmt.Sprintf("arg %d %s", i, a.Name)
			lv.args = append(lv.args, a)
		}
		lv.cmd = &cli.Command{Name: fmt.Sprintf("cmd%d", i), Flags: lv.flags, Args: lv.args}
		l.levels = append(l.levels, lv)
	}
	for i, lv := range l.levels {
		for _, n := range vfPick(v.r, [][]string{{}, {"x"}, {"x", "y"}}) {
			if len(lv.args) > 0 {
				break
			}
			lv.subs = append(lv.subs, &cli.Command{Name: n, Aliases: vfPick(v.r, [][]string{nil, {n + "1"}, {n + "1", n + "2"}})})
		}
		if i+1 < len(l.levels) {
			lv.subs = append(lv.subs, l.levels[i+1].cmd)
		}
		lv.cmd.Subcommands = lv.subs
	}
	return l
}

func (l *vfLook) app(action func(*cli.Context) error) *cli.App {
	root := l.levels[0].cmd
	l.levels[len(l.levels)-1].cmd.Action = cli.ActionFunc(action)
	return &cli.App{Name: "app", Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Action: root.Action, Stdout: io.Discard, Stderr: io.Discard}
}

func (l *vfLook) line() []string {
	line := []string{"app"}
	for _, v := range l.levels[1:] {
		line = append(line, v.cmd.Name)
	}
	return line
}

var vfLookNames = []string{"a", "b", "c", "file", "long", "name-x", "other", "q", "zed", "missing", "x", "fil", "name", "A", "FILE", "X", "Cmd1"}

func (l *vfLook) check(c *cli.Context, level int) (string, string) {
	var want, got []string
	say := func(what string, w, g any) {
		if ws, gs := fmt.Sprint(w), fmt.Sprint(g); ws != gs {
			want, got = append(want, fmt.Sprintf("level %d %s: %s", level, what, ws)), append(got, fmt.Sprintf("level %d %s: %s", level, what, gs))
		}
	}
	text := func(o any) string {
		switch x := o.(type) {
		case *cli.Flag:
			if x == nil {
				return "none"
			}
			return fmt.Sprint(*x.Value.(*string))
		case *cli.Arg:
			if x == nil {
				return "none"
			}
			return fmt.Sprint(*x.Value.(*string))
		}
		return "?"
	}
	for _, n := range vfLookNames {
		f, a := l.flag(level, n), l.arg(level, n)
		for _, d := range []string{n, "-" + n, "--" + n} {
			g, ok := c.LookupFlag(d)
			say("LookupFlag "+d, fmt.Sprint(text(f), f != nil), fmt.Sprint(text(g), ok))
		}
		if len(n) == 1 {
			g, ok := c.LookupFlag([]rune(n)[0])
			say("LookupFlag rune "+n, fmt.Sprint(text(f), f != nil), fmt.Sprint(text(g), ok))
			say("Value rune "+n, l.value(level, n), c.Value([]rune(n)[0]))
		}
		for _, d := range []string{n, "<" + n + ">"} {
			g, ok := c.LookupArg(d)
			say("LookupArg "+d, fmt.Sprint(text(a), a != nil), fmt.Sprint(text(g), ok))
		}
		for _, d := range []string{n, "-" + n, "--" + n, "<" + n + ">"} {
			say("Value "+d, l.value(level, n), c.Value(d))
		}
		var cmd *cli.Command
		for _, s := range l.levels[level].subs {
			if s.Name == n || slices.Contains(s.Aliases, n) {
				cmd = s
				break
			}
		}
		gc, ok := c.LookupCommand(n)
		say("LookupCommand "+n, fmt.Sprint(cmd != nil, cmd == gc), fmt.Sprint(ok, true))
	}
	for _, n := range []string{"x1", "x2", "y1", "y2", "y", "cmd1", "cmd2"} {
		var cmd *cli.Command
		for _, s := range l.levels[level].subs {
			if s.Name == n || slices.Contains(s.Aliases, n) {
				cmd = s
			}
		}
		gc, ok := c.LookupCommand(n)
		say("LookupCommand "+n, fmt.Sprint(cmd != nil, cmd == gc), fmt.Sprint(ok, true))
	}
	args := l.levels[level].args
	for i := -4; i <= 4 && len(l.levels[level].subs) == 0; i++ {
		k := i
		if i < 0 {
			k = len(args) + i
		}
		var a *cli.Arg
		var val any
		if k >= 0 && k < len(args) {
			a = args[k]
			val = *a.Value.(*string)
			for _, f := range l.levels[level].flags {
				if slices.Contains(vfFlagNames(f), a.Name) {
					val = nil
				}
			}
		}
		g, ok := c.LookupArg(i)
		say(fmt.Sprint("LookupArg ", i), fmt.Sprint(text(a), a != nil), fmt.Sprint(text(g), ok))
		say(fmt.Sprint("Value ", i), val, c.Value(i))
	}
	for _, f := range l.levels[level].flags {
		g, ok := c.LookupFlag(f)
		say("LookupFlag itself", fmt.Sprint(text(f), true), fmt.Sprint(text(g), ok))
		say("Value of the flag", *f.Value.(*string), c.Value(f))
	}
	if len(want) > 0 {
		return want[0], got[0]
	}
	return "", ""
}

func TestVerifC14(t *testing.T) {
	v := vfNew(t, "C14.lookup", "flags, args, commands and values by name, alias, index and itself, from every level")
	for !v.timeUp() && v.evals < v.n(1500, 60000) {
		l := vfLookGen(v)
		v.run(l.String(), func() (want, got string) {
			err := l.app(func(c *cli.Context) error {
				for i := len(l.levels) - 1; i >= 0 && want == ""; i-- {
					want, got = l.check(c, i)
					c = c.Parent()
				}
				return nil
			}).RunContext(context.Background(), l.line())
			if err != nil {
				return "no error", err.Error()
			}
			return
		})
	}
	v.done()
}

func TestVerifC14Binds(t *testing.T) {
	v := vfNew(t, "C14.binds", "what is given under a name is the value of the nearest option of that name, and a lookup by any of its names gives it")
	for !v.timeUp() && v.evals < v.n(4000, 100000) {
		l := vfLookGen(v)
		at := v.r.Intn(len(l.levels))
		n := vfPick(v.r, vfLookNames[:9])
		f := l.flag(at, n)
		if f == nil || l.arg(len(l.levels)-1, n) != nil {
			continue
		}
		declared := 0
		for i, lv := range l.levels {
			if slices.Contains(lv.flags, f) {
				declared = i
			}
		}
		if declared < at && vfLookNonPersistent(f) {
			continue
		}
		// nearer ones that do not persist, or args of the same names, are not what this is about
		skip := false
		for _, lv := range l.levels {
			for _, a := range lv.args {
				skip = skip || slices.Contains(vfFlagNames(f), a.Name)
			}
			for _, o := range lv.flags {
				skip = skip || o != f && vfLookNonPersistent(o)
				// hidden in part
				skip = skip || o != f && lv != l.levels[declared] && slices.ContainsFunc(vfFlagNames(o), func(s string) bool { return slices.Contains(vfFlagNames(f), s) }) && slices.ContainsFunc(vfFlagNames(o), func(s string) bool { return s != n && slices.Contains(vfFlagNames(f), s) || s != n && o.Name == n })
			}
		}
		if skip {
			continue
		}
		given := "--" + n
		if len(n) == 1 {
			given = "-" + n
		}
		line := slices.Insert(l.line(), at+1, given, "given")
		v.run(l.String()+" "+strings.Join(line, " "), func() (want, got string) {
			err := l.app(func(c *cli.Context) error {
				for i := len(l.levels) - 1; i > at; i-- {
					c = c.Parent()
				}
				want, got = fmt.Sprint("given", "given", true, 1), fmt.Sprint(*f.Value.(*string), c.Value(n), c.Seen(n), c.Occurrences(f))
				if want != got {
					return nil
				}
				for _, a := range vfFlagNames(f) {
					if l.flag(at, a) == f {
						if g := c.Value(a); fmt.Sprint(g) != "given" {
							want, got = "Value "+a+": given", fmt.Sprint(g)
							return nil
						}
					}
				}
				want, got = "", ""
				return nil
			}).RunContext(context.Background(), line)
			if err != nil {
				return "no error", err.Error()
			}
			return
		})
	}
	v.done()
}

func TestVerifC14Option(t *testing.T) {
	v := vfNew(t, "C14.option", "within a flag or an arg the empty name is itself, and looking for the other kind finds nothing")
	for !v.timeUp() && v.evals < v.n(300, 5000) {
		l := vfLookGen(v)
		last := l.levels[len(l.levels)-1]
		if len(last.flags)+len(last.args) == 0 {
			v.evals++
			continue
		}
		ran := ""
		body := func(isFlag bool, val any) cli.Action {
			return cli.ActionFunc(func(c *cli.Context) error {
				f, okf := c.LookupFlag("")
				a, oka := c.LookupArg("")
				_, other := c.LookupArg(7)
				if !(okf == isFlag && oka == !isFlag && (f != nil) == isFlag && (a != nil) == !isFlag && !other && c.Value(7) == nil && fmt.Sprint(c.Value("")) == "given" && fmt.Sprint(c.Value(nil)) == "given" && c.Seen("") && c.Seen(nil)) {
					ran += fmt.Sprint(" wrong in ", c.Name(), okf, oka, other, c.Value(7), c.Value(""))
				}
				if isFlag && f.Value != val || !isFlag && a.Value != val {
					ran += " not itself in " + c.Name()
				}
				return nil
			})
		}
		line := l.line()
		for _, f := range last.flags {
			f.Uses = cli.At(cli.ActionTiming, body(true, f.Value))
			line = append(line, strings.Repeat("-", min(2, len(f.Name)))+f.Name, "given")
		}
		for _, a := range last.args {
			a.Uses = cli.At(cli.ActionTiming, body(false, a.Value))
			line = append(line, "given")
		}
		if slices.ContainsFunc(last.args, func(a *cli.Arg) bool {
			return slices.ContainsFunc(vfLookNames, func(n string) bool { f := l.flag(len(l.levels)-1, n); return f != nil && f.Name == a.Name })
		}) {
			v.evals++
			continue
		}
		v.run(l.String()+strings.Join(line, " "), func() (string, string) {
			if err := l.app(func(c *cli.Context) error { return nil }).RunContext(context.Background(), line); err != nil {
				return "no error", err.Error()
			}
			return "", ran
		})
	}
	v.done()
}
