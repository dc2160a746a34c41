package cli_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type vfLifeOpt struct {
	name    string
	valid   bool // registers a validator
	impl    int  // 0 none, 1 an implicit-value action, 2 one that sets a value
	implied bool // ImpliedAction
	opts    cli.Option
	at      []cli.Timing
	given   int // the level it is given at, -1 if not
}

type vfLifeCmd struct {
	name  string
	flags []*vfLifeOpt
	args  []*vfLifeOpt
	subs  []*vfLifeCmd
	at    []cli.Timing
	opts  bool // ImpliedAction on the command
}

type vfLife struct {
	log  []string
	fail string
}

func (l *vfLife) act(s string) cli.Action {
	return cli.ActionFunc(func(*cli.Context) error {
		l.log = append(l.log, s)
		if s == l.fail {
			return errors.New("failed " + s)
		}
		return nil
	})
}

func (o *vfLifeOpt) uses(l *vfLife) cli.Action {
	p := cli.Pipeline(l.act(o.name + " uses"))
	if o.impl == 1 {
		p = p.Append(cli.At(cli.ImplicitValueTiming, l.act(o.name+" implicit")))
	}
	if o.impl == 2 {
		p = p.Append(cli.At(cli.ImplicitValueTiming, cli.Pipeline(l.act(o.name+" implicit"), func(c *cli.Context) error { return c.SetValue("true") })))
	}
	for i, t := range o.at {
		p = p.Append(cli.At(t, l.act(fmt.Sprintf("%s at%d %v", o.name, i, t))))
	}
	if o.valid { // registered last, runs first
		p = p.Append(cli.At(cli.ValidatorTiming, l.act(o.name+" validator")))
	}
	return p
}

func (o *vfLifeOpt) during(t cli.Timing) (out []string) {
	if t == cli.BeforeTiming {
		if o.valid {
			out = append(out, o.name+" validator")
		}
		if o.impl > 0 {
			out = append(out, o.name+" implicit")
		}
	}
	for i, x := range o.at {
		if x == t {
			out = append(out, fmt.Sprintf("%s at%d %v", o.name, i, x))
		}
	}
	return append(out, o.name+" "+vfStage(t))
}

func vfStage(t cli.Timing) string {
	return map[cli.Timing]string{cli.BeforeTiming: "before", cli.ActionTiming: "action", cli.AfterTiming: "after"}[t]
}

func (o *vfLifeOpt) runs(c *vfLifeCmd) bool {
	return o.given >= 0 || o.impl == 2 && (o.implied || c.opts)
}

func (c *vfLifeCmd) build(l *vfLife) *cli.Command {
	r := &cli.Command{Name: c.name, Before: l.act(c.name + " before"), Action: l.act(c.name + " action"), After: l.act(c.name + " after")}
	p := cli.Pipeline(l.act(c.name + " uses"))
	for i, t := range c.at {
		p = p.Append(cli.At(t, l.act(fmt.Sprintf("%s at%d %v", c.name, i, t))))
	}
	r.Uses = p
	if c.opts {
		r.Options = cli.ImpliedAction
	}
	for _, f := range c.flags {
		x := &cli.Flag{Name: f.name, Value: cli.Bool(), Uses: f.uses(l), Before: l.act(f.name + " before"), Action: l.act(f.name + " action"), After: l.act(f.name + " after")}
		if f.implied {
			x.Options = cli.ImpliedAction
		}
		x.Options |= f.opts
		r.Flags = append(r.Flags, x)
	}
	for _, a := range c.args {
		x := &cli.Arg{Name: a.name, Value: cli.String(), NArg: 0, Uses: a.uses(l), Before: l.act(a.name + " before"), Action: l.act(a.name + " action"), After: l.act(a.name + " after")}
		if a.implied {
			x.Options = cli.ImpliedAction
		}
		x.Options |= a.opts
		r.Args = append(r.Args, x)
	}
	for _, s := range c.subs {
		r.Subcommands = append(r.Subcommands, s.build(l))
	}
	return r
}

func (c *vfLifeCmd) initial(out []string) []string {
	out = append(out, c.name+" uses")
	for _, f := range append(append([]*vfLifeOpt{}, c.flags...), c.args...) {
		out = append(out, f.name+" uses")
	}
	for _, s := range c.subs {
		out = s.initial(out)
	}
	return out
}

func (c *vfLifeCmd) during(t cli.Timing) (out []string) {
	for i, x := range c.at {
		if x == t {
			out = append(out, fmt.Sprintf("%s at%d %v", c.name, i, x))
		}
	}
	return append(out, c.name+" "+vfStage(t))
}

// vfLifeRun is the oracle: what runs for the commands path[k:], given what each option says.
func vfLifeRun(path []*vfLifeCmd, k int, out []string) []string {
	c := path[k]
	all := append(append([]*vfLifeOpt{}, c.flags...), c.args...)
	out = append(out, c.during(cli.BeforeTiming)...)
	for _, o := range all {
		out = append(out, o.during(cli.BeforeTiming)...)
	}
	for j := 0; j < k; j++ { // flags of the enclosing commands used here
		for _, f := range path[j].flags {
			if f.given == k {
				out = append(out, f.during(cli.ActionTiming)...)
			}
		}
	}
	for _, o := range all {
		if o.given == k || o.given < 0 && o.runs(c) {
			out = append(out, o.during(cli.ActionTiming)...)
		}
		if o.given > k && o.impl == 2 && (o.implied || c.opts) { // implied here before it is given below
			out = append(out, o.during(cli.ActionTiming)...)
		}
	}
	if k+1 < len(path) {
		out = vfLifeRun(path, k+1, out)
	} else {
		out = append(out, c.during(cli.ActionTiming)...)
	}
	out = append(out, c.during(cli.AfterTiming)...)
	for _, o := range all {
		out = append(out, o.during(cli.AfterTiming)...)
	}
	return out
}

func vfLifeTimes(r *rand.Rand) (out []cli.Timing) {
	for i, n := 0, r.Intn(3); i < n; i++ {
		out = append(out, vfPick(r, []cli.Timing{cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}))
	}
	return
}

func vfLifeTree(r *rand.Rand, depth int, n *int) *vfLifeCmd {
	*n++
	c := &vfLifeCmd{name: fmt.Sprintf("c%d", *n), at: vfLifeTimes(r), opts: r.Intn(5) == 0}
	opt := func(p string) *vfLifeOpt {
		*n++
		return &vfLifeOpt{name: fmt.Sprintf("%s%d", p, *n), valid: r.Intn(4) == 0, impl: r.Intn(6) % 3, implied: r.Intn(3) == 0, opts: vfPick(r, []cli.Option{0, 0, cli.Hidden, cli.Visible, cli.DisableSplitting, cli.Hidden | cli.Merge}), at: vfLifeTimes(r), given: -1}
	}
	for i, k := 0, r.Intn(3); i < k; i++ {
		c.flags = append(c.flags, opt("f"))
	}
	if depth > 0 {
		for i, k := 0, r.Intn(3); i < k; i++ {
			c.subs = append(c.subs, vfLifeTree(r, depth-1, n))
		}
	}
	if len(c.subs) == 0 {
		for i, k := 0, r.Intn(3); i < k; i++ {
			c.args = append(c.args, opt("a"))
		}
	}
	return c
}

func TestVerifC12Order(t *testing.T) {
	v := vfNew(t, "lifecycle order", "each hook of each element runs once, in timing order, from the application to the selected command and back, up to the first failure")
	defer v.done()
	for i, n := 0, v.n(6000, 150000); i < n && !v.timeUp(); i++ {
		id := 0
		root := vfLifeTree(v.r, 2, &id)
		path := []*vfLifeCmd{root}
		for c := root; len(c.subs) > 0; {
			c = vfPick(v.r, c.subs)
			path = append(path, c)
		}
		line := []string{root.name}
		for k, c := range path {
			if k > 0 {
				line = append(line, c.name)
			}
			for j := 0; j <= k; j++ {
				for _, f := range path[j].flags {
					if f.given < 0 && v.r.Intn(3) == 0 {
						f.given = k
						line = append(line, "--"+f.name)
					}
				}
			}
			for _, a := range c.args {
				if v.r.Intn(2) == 0 {
					break
				}
				a.given = k
				line = append(line, "x")
			}
		}
		want := vfLifeRun(path, 0, root.initial(nil))
		werr := "ok"
		l := &vfLife{}
		if v.r.Intn(4) == 0 {
			m := v.r.Intn(len(want))
			l.fail = want[m]
			for x, s := range want { // the failing name's first occurrence
				if s == l.fail {
					m = x
					break
				}
			}
			want, werr = want[:m+1], "failed "+l.fail
		}
		v.run(fmt.Sprintf("%v fail=%q in %s", line, l.fail, vfLifeText(root)), func() (string, string) {
			c := root.build(l)
			app := &cli.App{Name: c.Name, Flags: c.Flags, Args: c.Args, Commands: c.Subcommands, Uses: c.Uses, Before: c.Before, Action: c.Action, After: c.After, Options: c.Options, Stdout: io.Discard, Stderr: io.Discard}
			err := app.RunContext(context.Background(), line)
			g := "ok"
			if err != nil {
				g = err.Error()
				if strings.HasSuffix(g, werr) {
					g = werr
				}
			}
			return strings.Join(want, "; ") + " => " + werr, strings.Join(l.log, "; ") + " => " + g
		})
	}
}

func vfLifeText(c *vfLifeCmd) string {
	var s []string
	for _, o := range append(append([]*vfLifeOpt{}, c.flags...), c.args...) {
		s = append(s, fmt.Sprintf("%+v", *o))
	}
	for _, x := range c.subs {
		s = append(s, vfLifeText(x))
	}
	return fmt.Sprintf("%s%v{%s}", c.name, c.at, strings.Join(s, " "))
}

// Registering from within a run: too late is an error, otherwise it runs exactly once then.
func TestVerifC12Register(t *testing.T) {
	v := vfNew(t, "registering during a run", "registering for a passed timing is an error, for the current one runs it at once, for a later one runs it once then")
	defer v.done()
	stages := []cli.Timing{cli.InitialTiming, cli.BeforeTiming, cli.ActionTiming, cli.AfterTiming}
	desired := append(append([]cli.Timing{}, stages...), cli.ValidatorTiming, cli.ImplicitValueTiming)
	real := func(t cli.Timing) cli.Timing {
		if t == cli.ValidatorTiming || t == cli.ImplicitValueTiming {
			return cli.BeforeTiming
		}
		return t
	}
	for where := 0; where < 4; where++ {
		for _, from := range stages {
			for _, to := range desired {
				for via := 0; via < 2; via++ {
					v.run(fmt.Sprintf("element %d: registering for %v from %v (way %d)", where, to, from, via), func() (string, string) {
						var ran []cli.Timing
						var regErr error
						registered := 0
						h := cli.ActionFunc(func(c *cli.Context) error { ran = append(ran, c.Timing()); return nil })
						reg := cli.ActionFunc(func(c *cli.Context) error {
							registered++
							if via == 0 {
								regErr = c.At(to, h)
							} else {
								switch to {
								case cli.InitialTiming:
									regErr = c.Use(h)
								case cli.BeforeTiming:
									regErr = c.Before(h)
								case cli.ActionTiming:
									regErr = c.Action(h)
								case cli.AfterTiming:
									regErr = c.After(h)
								default:
									regErr = c.Do(cli.At(to, h))
								}
							}
							return nil
						})
						var hooks [4]any
						hooks[from] = cli.Action(reg)
						app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
						line := []string{"app"}
						nop := func(*cli.Context) error { return nil }
						switch where {
						case 0:
							app.Uses, app.Before, app.Action, app.After = vfHook(hooks[0]), hooks[1], hooks[2], hooks[3]
						case 1:
							app.Action = nop
							app.Flags = []*cli.Flag{{Name: "f", Value: cli.Bool(), Uses: vfHook(hooks[0]), Before: hooks[1], Action: hooks[2], After: hooks[3]}}
							line = append(line, "-f")
						case 2:
							app.Action = nop
							app.Args = []*cli.Arg{{Name: "a", Value: cli.String(), Uses: vfHook(hooks[0]), Before: hooks[1], Action: hooks[2], After: hooks[3]}}
							line = append(line, "x")
						case 3:
							app.Commands = []*cli.Command{{Name: "sub", Uses: vfHook(hooks[0]), Before: hooks[1], Action: hooks[2], After: hooks[3]}}
							line = append(line, "sub")
						}
						if app.Action == nil && where != 3 {
							app.Action = nop
						}
						err := app.RunContext(context.Background(), line)
						want, got := "[] too late", ""
						if from <= real(to) {
							want = fmt.Sprint([]cli.Timing{real(to)}, " ok")
						}
						if from > real(to) {
							want = "[] too late"
						}
						e := " ok"
						if errors.Is(regErr, cli.ErrTimingTooLate) {
							e = " too late"
						} else if regErr != nil {
							e = " " + regErr.Error()
						}
						got = fmt.Sprint(ran) + e
						if from <= real(to) {
							got = fmt.Sprint(ran, e)
						}
						return fmt.Sprint(want, " 1 ok"), fmt.Sprint(got, " ", registered, " ", vfErr(err))
					})
				}
			}
		}
	}
}

func vfHook(x any) cli.Action {
	if x == nil {
		return nil
	}
	return x.(cli.Action)
}
