package cli_test

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

var opNames = []struct {
	o cli.Option
	n string
}{
	{cli.Hidden, "HIDDEN"}, {cli.Required, "REQUIRED"}, {cli.Exits, "EXITS"}, {cli.MustExist, "MUST_EXIST"},
	{cli.SkipFlagParsing, "SKIP_FLAG_PARSING"}, {cli.DisallowFlagsAfterArgs, "DISALLOW_FLAGS_AFTER_ARGS"},
	{cli.WorkingDirectory, "WORKING_DIRECTORY"}, {cli.Optional, "OPTIONAL"}, {cli.No, "NO"}, {cli.NonPersistent, "NON_PERSISTENT"},
	{cli.DisableSplitting, "DISABLE_SPLITTING"}, {cli.Merge, "MERGE"}, {cli.RightToLeft, "RIGHT_TO_LEFT"}, {cli.PreventSetup, "PREVENT_SETUP"},
	{cli.EachOccurrence, "EACH_OCCURRENCE"}, {cli.FileReference, "FILE_REFERENCE"}, {cli.AllowFileReference, "ALLOW_FILE_REFERENCE"},
	{cli.SortedFlags, "SORTED_FLAGS"}, {cli.SortedCommands, "SORTED_COMMANDS"}, {cli.SortedExprs, "SORTED_EXPRS"},
	{cli.ImpliedAction, "IMPLIED_ACTION"}, {cli.Visible, "VISIBLE"}, {cli.DisableAutoVisibility, "DISABLE_AUTO_VISIBILITY"}, {cli.Trigger, "TRIGGER"},
}

func TestVerifC10Text(t *testing.T) {
	v := vfNew(t, "Option text", "the text of a combination names exactly its members, and reading it adds exactly those")
	defer v.done()
	check := func(set []int, prior cli.Option) {
		var o cli.Option
		var want []string
		for _, i := range set {
			if o&opNames[i].o == 0 {
				want = append(want, opNames[i].n)
			}
			o |= opNames[i].o
		}
		v.run(fmt.Sprintf("Option(%#x) onto %#x", int(o), int(prior)), func() (string, string) {
			s := o.String()
			var got []string
			for _, p := range strings.Split(s, ",") {
				if p = strings.TrimSpace(p); p != "" {
					got = append(got, p)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprint(want), s
			}
			b, err := o.MarshalText()
			if err != nil || string(b) != s {
				return s, fmt.Sprint(string(b), err)
			}
			var back cli.Option
			if err := back.UnmarshalText(b); err != nil || back != o {
				return fmt.Sprintf("%#x", int(o)), fmt.Sprintf("%q reads as %#x, %v", s, int(back), err)
			}
			x := prior
			if err := x.UnmarshalText(b); err != nil || x != prior|o {
				return fmt.Sprintf("%#x", int(prior|o)), fmt.Sprintf("%q onto %#x is %#x, %v", s, int(prior), int(x), err)
			}
			return "", ""
		})
	}
	for i := range opNames {
		check([]int{i}, 0)
		for j := range opNames {
			check([]int{i, j}, 0)
		}
	}
	for i := 0; i < v.n(4000, 100000) && !v.timeUp(); i++ {
		var set []int
		for k := v.r.Intn(12); k > 0; k-- {
			set = append(set, v.r.Intn(len(opNames)))
		}
		check(set, cli.Option(v.r.Intn(1<<24)))
	}
}

type opFeature int

func TestVerifC10FeatureMap(t *testing.T) {
	v := vfNew(t, "FeatureMap.Pipeline", "the actions of exactly the members, each once; a combined member stands for its parts")
	defer v.done()
	for i := 0; i < v.n(1500, 30000) && !v.timeUp(); i++ {
		m := cli.FeatureMap[opFeature]{}
		var got []string
		add := func(k opFeature) {
			m[k] = cli.ActionFunc(func(*cli.Context) error { got = append(got, fmt.Sprintf("%#x", int(k))); return nil })
		}
		var groups []opFeature // pairwise disjoint groups of bits
		bit := 0
		for g := v.r.Intn(5) + 1; g > 0; g-- {
			var k opFeature
			for n := v.r.Intn(3) + 1; n > 0; n-- {
				k |= 1 << bit
				bit++
			}
			groups = append(groups, k)
			add(k)
			for b := 0; b < bit; b++ { // and each bit on its own
				if k&(1<<b) != 0 && v.r.Intn(2) == 0 {
					add(1 << b)
				}
			}
		}
		val := opFeature(v.r.Intn(1 << (bit + 1)))
		var want []string
		for _, g := range groups {
			if val&g == g {
				want = append(want, fmt.Sprintf("%#x", int(g)))
				continue
			}
			for b := 0; b < bit; b++ {
				if _, ok := m[1<<b]; ok && g != 1<<b && g&(1<<b) != 0 && val&(1<<b) != 0 {
					want = append(want, fmt.Sprintf("%#x", 1<<b))
				}
			}
		}
		v.run(fmt.Sprintf("keys %v value %#x", groups, int(val)), func() (string, string) {
			app := &cli.App{Name: "app", Uses: m.Pipeline(val), Stderr: io.Discard, Stdout: io.Discard}
			if err := app.RunContext(context.Background(), []string{"app"}); err != nil {
				return "no error", err.Error()
			}
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				return fmt.Sprint(want), fmt.Sprint(got)
			}
			return "", ""
		})
	}
}

// What each option of a list flag does, on its own line: the observations must be those of exactly the
// options given.
func TestVerifC10Flag(t *testing.T) {
	v := vfNew(t, "flag options", "a combination of options has the effects of exactly its members")
	defer v.done()
	pool := []cli.Option{cli.Hidden, cli.Required, cli.DisableSplitting, cli.Merge, cli.EachOccurrence, cli.NonPersistent, cli.ImpliedAction, cli.Exits}
	for mask := 0; mask < 1<<len(pool); mask++ {
		if v.timeUp() {
			return
		}
		var o cli.Option
		has := func(x cli.Option) bool { return o&x != 0 }
		for i, p := range pool {
			if mask&(1<<i) != 0 {
				o |= p
			}
		}
		for mode := 0; mode < 3; mode++ { // as Options, as an action, set and cleared
			mode := mode
			v.run(fmt.Sprintf("flag with %v (mode %d)", o, mode), func() (string, string) {
				run := func(line ...string) (vals []string, calls int, visible bool, code error) {
					l := []string{"init"}
					f := &cli.Flag{Name: "l", Value: &l, Action: func() { calls++ }, EnvVars: []string{"VF_C10_L"}}
					switch mode {
					case 0:
						f.Options = o
					case 1:
						f.Uses = o
					case 2:
						f.Options = o
						f.Uses = cli.ActionOf(func(c *cli.Context) error {
							f.SetHidden(!has(cli.Hidden))
							f.SetRequired(!has(cli.Required))
							for k := 0; k < 2; k++ {
								f.SetHidden(has(cli.Hidden))
								f.SetRequired(has(cli.Required))
							}
							return nil
						})
					}
					app := &cli.App{Name: "app", Flags: []*cli.Flag{f}, Stderr: io.Discard, Stdout: io.Discard, Action: func() {},
						Commands: []*cli.Command{{Name: "sub", Action: func() {}}}}
					ctx, _ := app.Initialize(context.Background())
					if ctx != nil {
						for _, x := range cli.FromContext(ctx).Command().VisibleFlags() {
							if x == f {
								visible = true
							}
						}
					}
					code = app.RunContext(context.Background(), append([]string{"app"}, line...))
					return l, calls, visible, code
				}
				var exp, got []string
				say := func(what string, e, g any) {
					exp = append(exp, fmt.Sprint(what, "=", e))
					got = append(got, fmt.Sprint(what, "=", g))
				}
				vals, calls, visible, err := run("-l", "a,b", "-l", "c")
				want := []string{"a", "b", "c"}
				if has(cli.DisableSplitting) {
					want = []string{"a,b", "c"}
				}
				if has(cli.Merge) {
					want = append([]string{"init"}, want...)
				}
				if !has(cli.EachOccurrence) {
					say("values", want, vals)
				}
				n := 1
				if has(cli.EachOccurrence) && !has(cli.Exits) {
					n = 2
				}
				if !(has(cli.EachOccurrence) && has(cli.Exits)) {
					say("calls", n, calls)
				}
				say("visible", !has(cli.Hidden), visible)
				say("error", false, err != nil && !has(cli.Exits))
				_, calls, _, err = run()
				say("error when missing", has(cli.Required), err != nil)
				say("calls when missing", 0, calls)
				if !has(cli.Required) && !has(cli.Exits) {
					_, _, _, err = run("sub", "-l", "z")
					say("refused below", has(cli.NonPersistent), err != nil)
				}
				if fmt.Sprint(exp) != fmt.Sprint(got) {
					return fmt.Sprint(exp), fmt.Sprint(got)
				}
				return "", ""
			})
		}
	}
}

func TestVerifC10Command(t *testing.T) {
	v := vfNew(t, "command options", "a combination of options has the effects of exactly its members")
	defer v.done()
	pool := []cli.Option{cli.Hidden, cli.SkipFlagParsing, cli.DisallowFlagsAfterArgs, cli.RightToLeft, cli.SortedFlags, cli.SortedCommands, cli.DisableAutoVisibility}
	for mask := 0; mask < 1<<len(pool); mask++ {
		if v.timeUp() {
			return
		}
		var o cli.Option
		for i, p := range pool {
			if mask&(1<<i) != 0 {
				o |= p
			}
		}
		has := func(x cli.Option) bool { return o&x != 0 }
		v.run(fmt.Sprintf("command with %v", o), func() (string, string) {
			var exp, got []string
			say := func(what string, e, g any) {
				exp = append(exp, fmt.Sprint(what, "=", e))
				got = append(got, fmt.Sprint(what, "=", g))
			}
			run := func(line ...string) (*cli.Context, map[string]any, error) {
				var a, b, r string
				var rest []string
				z := false
				cmd := &cli.Command{Name: "sub", Options: o, Action: func() {},
					Flags: []*cli.Flag{{Name: "z", Value: &z}, {Name: "b", Value: cli.Bool()}, {Name: "_under", Value: cli.Bool()}},
					Args:  []*cli.Arg{{Name: "a", Value: &a, NArg: 0}, {Name: "m", Value: &b, NArg: 0}, {Name: "r", Value: &r, NArg: 1}, {Name: "rest", Value: &rest, NArg: cli.TakeRemaining}},
				}
				if !has(cli.RightToLeft) {
					cmd.Args = cmd.Args[3:]
					if !has(cli.SkipFlagParsing) {
						cmd.Args[0].NArg = cli.TakeExceptForFlags
					}
				} else {
					cmd.Args = cmd.Args[:3]
				}
				if len(line) == 0 {
					cmd.Subcommands = []*cli.Command{{Name: "y"}, {Name: "x"}}
					cmd.Args = nil
				}
				app := &cli.App{Name: "app", Commands: []*cli.Command{cmd}, Stderr: io.Discard, Stdout: io.Discard}
				var seen *cli.Context
				cmd.Before = func(c *cli.Context) { seen = c }
				err := app.RunContext(context.Background(), append([]string{"app", "sub"}, line...))
				m := map[string]any{"a": a, "b": b, "r": r, "rest": rest, "z": z}
				return seen, m, err
			}
			c, _, _ := run()
			if c == nil {
				return "the command runs", "it did not"
			}
			names := func() (r []string) {
				for _, f := range c.Command().Flags {
					if f.Name == "z" || f.Name == "b" || f.Name == "_under" {
						r = append(r, f.Name)
					}
				}
				return
			}()
			if has(cli.SortedFlags) {
				say("flags", []string{"_under", "b", "z"}, names)
			} else {
				say("flags", []string{"z", "b", "_under"}, names)
			}
			var subs []string
			for _, s := range c.Command().Subcommands {
				subs = append(subs, s.Name)
			}
			if has(cli.SortedCommands) {
				say("commands", []string{"x", "y"}, subs)
			} else {
				say("commands", []string{"y", "x"}, subs)
			}
			under := false
			for _, f := range c.Command().VisibleFlags() {
				under = under || f.Name == "_under"
			}
			say("underscore visible", has(cli.DisableAutoVisibility), under)
			vis := false
			for _, s := range c.Parent().Command().VisibleSubcommands() {
				vis = vis || s.Name == "sub"
			}
			say("visible", !has(cli.Hidden), vis)
			if !has(cli.SkipFlagParsing) {
				if has(cli.RightToLeft) {
					_, m, err := run("1")
					say("rtl", "<nil> 1", fmt.Sprint(err, m["a"], m["b"], " ", m["r"]))
				} else {
					_, m, err := run("x", "-z")
					if has(cli.DisallowFlagsAfterArgs) {
						say("flag after arg refused", true, err != nil)
					} else {
						say("flag after arg", "true <nil>", fmt.Sprint(m["z"], " ", err))
					}
				}
			} else if !has(cli.RightToLeft) {
				_, m, err := run("x", "-z", "-q")
				say("unparsed", "[x -z -q] false <nil>", fmt.Sprint(m["rest"], m["z"], " ", err))
			}
			if fmt.Sprint(exp) != fmt.Sprint(got) {
				return fmt.Sprint(exp), fmt.Sprint(got)
			}
			return "", ""
		})
	}
}
