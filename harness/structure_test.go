package cli_test

import (
	"bytes"
	"context"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

var vfNamePattern = regexp.MustCompile(`^[a-zA-Z0-9@#+._*:-]+$`)

// TestVerifC18Names initialises commands with random names of flags and args.
func TestVerifC18Names(t *testing.T) {
	v := vfNew(t, "names", "initialising fails exactly when two flags or args of a command have the same name or a flag has no valid name; otherwise every flag and arg is kept in order")
	pool := []string{"a", "b", "c", "delta", "e-f", "g", "h", "A", "Delta", "_1", "_2"}
	odd := []string{"", "a b", "x=y", "é", "@", "#1", "a/b", "*", "a,b", "_"}
	n := v.n(4000, 60000)
	for i := 0; i < n && !v.timeUp(); i++ {
		pick := func() string {
			if v.r.Intn(25) == 0 {
				return vfPick(v.r, odd)
			}
			return vfPick(v.r, pool) + strings.Repeat("x", v.r.Intn(3))
		}
		flags, args := make([]string, v.r.Intn(5)), make([]string, v.r.Intn(4))
		for k := range flags {
			flags[k] = pick()
		}
		for k := range args {
			args[k] = pick()
			if v.r.Intn(6) == 0 {
				args[k] = ""
			}
		}
		root := v.r.Intn(2) == 0
		outer := pick()
		hideMask := v.r.Intn(1 << 10)
		v.run(fmt.Sprintf("flags %q, args %q, root=%v, flag %q of the enclosing command, hidden %b", flags, args, root, outer, hideMask), func() (string, string) {
			mask := hideMask
			hide := func() (o cli.Option) {
				if mask&3 == 3 {
					o = cli.Hidden
				}
				mask >>= 1
				return
			}
			var fs []*cli.Flag
			var as []*cli.Arg
			for _, f := range flags {
				fs = append(fs, &cli.Flag{Name: f, Value: cli.String(), Options: hide()})
			}
			for _, a := range args {
				as = append(as, &cli.Arg{Name: a, Value: cli.String(), NArg: 1, Options: hide()})
			}
			cmd := &cli.Command{Name: "cmd", Flags: fs, Args: as}
			app := &cli.App{Name: "app", Flags: fs, Args: as}
			bad := ""
			if !root {
				app = &cli.App{Name: "app", Commands: []*cli.Command{cmd}, Flags: []*cli.Flag{{Name: outer, Value: cli.String()}}}
				if !vfNamePattern.MatchString(outer) {
					bad = "flag " + outer
				}
			}
			seen := map[string]bool{}
			dup := false
			for _, a := range args {
				dup = dup || a != "" && seen[a]
				seen[a] = true
			}
			delete(seen, "")
			for _, f := range flags {
				if !vfNamePattern.MatchString(f) {
					bad = "flag " + f
				}
				dup = dup || f != "" && seen[f]
				seen[f] = true
			}
			c, err := app.Initialize(context.Background())
			if (dup || bad != "") != (err != nil) {
				return fmt.Sprintf("failure=%v", dup || bad != ""), fmt.Sprintf("error %v", err)
			}
			if err != nil {
				return "", ""
			}
			gotF, gotA := cmd.Flags, cmd.Args
			if root {
				gotF, gotA = cli.FromContext(c).Command().Flags, cli.FromContext(c).Command().Args
			}
			if len(gotF) < len(fs) || !root && len(gotF) != len(fs) || len(gotA) != len(as) {
				return "every flag and arg is kept", fmt.Sprintf("%d flags, %d args", len(gotF), len(gotA))
			}
			for k := range fs {
				if gotF[k] != fs[k] || gotF[k].Name != flags[k] {
					return fmt.Sprintf("flag %d is %q", k, flags[k]), gotF[k].Name
				}
			}
			for k := range as {
				if gotA[k] != as[k] || args[k] != "" && gotA[k].Name != args[k] || gotA[k].Name == "" {
					return fmt.Sprintf("arg %d is %q", k, args[k]), gotA[k].Name
				}
			}
			return "", ""
		})
	}
	v.done()
}

type vfItem struct {
	name, category string
	opt            cli.Option
	byMethod       bool
}

func (it vfItem) hidden(noAuto bool) bool {
	if it.opt&cli.Hidden != 0 {
		return true
	}
	return strings.HasPrefix(it.name, "_") && it.opt != cli.Visible && !noAuto
}

// TestVerifC18Visible compares the visible flags, args and commands, and the help screen, with the declarations.
func TestVerifC18Visible(t *testing.T) {
	v := vfNew(t, "visible", "the visible flags, args and commands are those declared that are not hidden, in order; the help screen lists each flag and command of them once, under its category")
	cats := []string{"", "", "Zeta", "alpha", "Beta", "beta", "mid", "mid2"}
	n := v.n(1500, 20000)
	for i := 0; i < n && !v.timeUp(); i++ {
		items := func(kind string, max int) []vfItem {
			res := make([]vfItem, v.r.Intn(max))
			for k := range res {
				res[k] = vfItem{name: fmt.Sprintf("%s%c", kind, 'a'+byte(k)), category: vfPick(v.r, cats)}
				if v.r.Intn(4) == 0 {
					res[k].name = "_" + res[k].name
				}
				res[k].opt = vfPick(v.r, []cli.Option{0, 0, 0, cli.Hidden, cli.Visible, cli.Hidden | cli.Visible})
				res[k].byMethod = v.r.Intn(3) == 0
			}
			return res
		}
		flags, args, cmds := items("f", 6), items("r", 4), items("c", 6)
		noAuto := v.r.Intn(6) == 0
		root := v.r.Intn(2) == 0
		v.run(fmt.Sprintf("flags %v args %v commands %v noauto=%v root=%v", flags, args, cmds, noAuto, root), func() (string, string) {
			var out bytes.Buffer
			var app *cli.App
			var cmd *cli.Command
			var line, wantF, wantA, wantC []string
			build := func() {
				var fs []*cli.Flag
				var as []*cli.Arg
				var cs []*cli.Command
				wantF, wantA, wantC = nil, nil, nil
				wants := func(w *[]string, it vfItem) {
					if !it.hidden(noAuto) {
						*w = append(*w, it.name)
					}
				}
				for _, it := range flags {
					f := &cli.Flag{Name: it.name, Category: it.category, HelpText: "text-of-" + it.name, Value: cli.String(), Options: it.opt}
					if it.byMethod && it.opt == cli.Hidden {
						f.Options = 0
						f.SetHidden(true)
					}
					fs = append(fs, f)
					wants(&wantF, it)
				}
				for _, it := range args {
					a := &cli.Arg{Name: it.name, Value: cli.String(), NArg: -2, Options: it.opt}
					if it.byMethod && it.opt == cli.Hidden {
						a.Options = 0
						a.SetHidden(true)
					}
					as = append(as, a)
					wants(&wantA, it)
				}
				for _, it := range cmds {
					c := &cli.Command{Name: it.name, Category: it.category, HelpText: "text-of-" + it.name, Options: it.opt}
					if it.byMethod && it.opt == cli.Hidden {
						c.Options = 0
						c.SetHidden(true)
					}
					cs = append(cs, c)
					wants(&wantC, it)
				}
				var opts cli.Option
				if noAuto {
					opts = cli.DisableAutoVisibility
				}
				cmd = &cli.Command{Name: "cmd", Flags: fs, Args: as, Subcommands: cs, Options: opts}
				app = &cli.App{Name: "app", Commands: []*cli.Command{cmd}, Stdout: &out, Stderr: &out}
				line = []string{"app", "help", "cmd"}
				if root {
					app = &cli.App{Name: "app", Flags: fs, Args: as, Commands: cs, Options: opts, Stdout: &out, Stderr: &out}
					line = []string{"app", "--help"}
				}
			}
			build()
			c, err := app.Initialize(context.Background())
			if err != nil {
				return "the command is initialised", err.Error()
			}
			if root {
				cmd = cli.FromContext(c).Command()
			}
			drop := func(names []string) string {
				var res []string
				for _, x := range names {
					if x != "help" && x != "version" && x != "command" {
						res = append(res, x)
					}
				}
				return fmt.Sprint(res)
			}
			var gotF, gotA, gotC []string
			for _, f := range cmd.VisibleFlags() {
				gotF = append(gotF, f.Name)
			}
			for _, a := range cmd.VisibleArgs() {
				gotA = append(gotA, a.Name)
			}
			for _, s := range cmd.VisibleSubcommands() {
				gotC = append(gotC, s.Name)
			}
			for _, p := range [][2][]string{{wantF, gotF}, {wantA, gotA}, {wantC, gotC}} {
				if drop(p[0]) != drop(p[1]) {
					return "visible: " + drop(p[0]), drop(p[1])
				}
			}
			// the help screen
			build()
			_ = app.RunContext(context.Background(), line)
			heading := ""
			count, under := map[string]int{}, map[string]string{}
			for _, l := range strings.Split(out.String(), "\n") {
				if l != "" && l[0] != ' ' && strings.HasSuffix(l, ":") {
					heading = strings.TrimSuffix(l, ":")
				}
				if k := strings.Index(l, "text-of-"); k >= 0 {
					name := strings.Fields(l[k+len("text-of-"):])[0]
					count[name]++
					under[name] = heading
				}
			}
			check := func(it vfItem, dflt string) (string, string) {
				want := 1
				if it.hidden(noAuto) {
					want = 0
				}
				if count[it.name] != want {
					return fmt.Sprintf("%s is listed %d times", it.name, want), fmt.Sprintf("%d times:\n%s", count[it.name], out.String())
				}
				cat := it.category
				if cat == "" {
					cat = dflt
				}
				if want == 1 && under[it.name] != cat {
					return fmt.Sprintf("%s is listed under %q", it.name, cat), fmt.Sprintf("%q:\n%s", under[it.name], out.String())
				}
				return "", ""
			}
			for _, it := range flags {
				if e, g := check(it, ""); e != "" {
					return e, g
				}
			}
			for _, it := range cmds {
				if e, g := check(it, "Sub-commands"); e != "" {
					return e, g
				}
			}
			return "", ""
		})
	}
	v.done()
}
