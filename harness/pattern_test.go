package cli_test

import (
	"fmt"
	"io"
	"slices"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

func vfPatElem(p, f string) bool {
	kind := "command"
	switch {
	case len(f) > 0 && f[0] == '-':
		kind = "flag"
	case len(f) > 1 && f[0] == '<' && f[1] == '-':
		kind = "expr"
	case len(f) > 0 && f[0] == '<':
		kind = "arg"
	}
	switch p {
	case "*":
		return kind == "command"
	case "-", "--":
		return kind == "flag"
	case "<>":
		return kind == "arg"
	case "<->":
		return kind == "expr"
	}
	return p == f || p[0] == '-' && "-"+p == f
}

func vfPatMatch(pattern string, path []string) bool {
	words := strings.Fields(pattern)
	for len(words) > 0 {
		if len(path) == 0 {
			return false
		}
		if !vfPatElem(words[len(words)-1], path[len(path)-1]) {
			return false
		}
		words, path = words[:len(words)-1], path[:len(path)-1]
	}
	return true
}

var vfPatElems = []string{"app", "sub", "*", "-", "--", "<>", "<->", "-f", "--f", "--flag", "-flag", "<arg>", "<-expr>", "<a", "---f", "<", "-*", "---"}

// TestVerifC15Match compares ContextPath.Match with the definition of a pattern.
func TestVerifC15Match(t *testing.T) {
	v := vfNew(t, "matching", "a pattern matches a path when its elements match the last elements of the path, right to left, and there are not more of them")
	check := func(pattern string, path []string) {
		v.run(fmt.Sprintf("ContextPath{%q}.Match(%q)", strings.Join(path, `", "`), pattern), func() (string, string) {
			want := fmt.Sprint(vfPatMatch(pattern, path))
			if got := fmt.Sprint(cli.ContextPath(path).Match(pattern)); got != want {
				return want, got
			}
			if got := vfPatHold(path); got != "" {
				return "", got
			}
			return "", ""
		})
	}
	for _, p := range vfPatElems {
		for _, f := range vfPatElems {
			check(p, []string{f})
			check("app "+p, []string{"app", f})
			check(p, []string{"app", "sub", f})
		}
	}
	n := v.n(6000, 60000)
	for i := 0; i < n && !v.timeUp(); i++ {
		path := make([]string, v.r.Intn(6))
		for k := range path {
			path[k] = vfPick(v.r, vfPatElems)
		}
		var words []string
		switch v.r.Intn(3) {
		case 0: // unrelated
			for k := v.r.Intn(5); k > 0; k-- {
				words = append(words, vfPick(v.r, vfPatElems))
			}
		default: // a suffix with some elements generalised or changed, or one more than the path has
			words = slices.Clone(path[v.r.Intn(len(path)+1):])
			for k := range words {
				switch v.r.Intn(6) {
				case 0:
					words[k] = vfPick(v.r, []string{"*", "-", "<>", "<->", "--"})
				case 1:
					words[k] = strings.TrimPrefix(words[k], "-")
					if words[k] == "" {
						words[k] = "-"
					}
				case 2:
					if v.r.Intn(4) == 0 {
						words[k] = vfPick(v.r, vfPatElems)
					}
				}
			}
			if v.r.Intn(5) == 0 {
				words = append([]string{vfPick(v.r, vfPatElems)}, words...)
			}
		}
		check(strings.Join(words, vfPick(v.r, []string{" ", "  ", "\t"})), path)
	}
	v.done()
}

// vfPatHold checks the classification of the last element of a path
func vfPatHold(path []string) string {
	if len(path) == 0 {
		return ""
	}
	p := cli.ContextPath(path)
	for _, k := range []struct {
		name string
		pat  string
		got  bool
	}{{"IsCommand", "*", p.IsCommand()}, {"IsFlag", "-", p.IsFlag()}, {"IsArg", "<>", p.IsArg()}, {"IsExpr", "<->", p.IsExpr()}} {
		if k.got != vfPatElem(k.pat, path[len(path)-1]) {
			return fmt.Sprintf("%s is %v", k.name, k.got)
		}
	}
	return ""
}

// TestVerifC15Filter compares PatternFilter and the hooks with the paths of the elements of an application.
func TestVerifC15Filter(t *testing.T) {
	v := vfNew(t, "filters", "hooks and filters apply to exactly the flags, args and commands whose path the pattern matches")
	n := v.n(600, 8000)
	for i := 0; i < n && !v.timeUp(); i++ {
		patterns := make([]string, 3)
		for k := range patterns {
			words := make([]string, v.r.Intn(4))
			for j := range words {
				words[j] = vfPick(v.r, []string{"*", "-", "<>", "app", "sub", "leaf", "-f", "-flag", "--flag", "--name", "<file>", "<rest>", "--"})
			}
			patterns[k] = strings.Join(words, " ")
		}
		useAfter := v.r.Intn(2) == 0
		depth := v.r.Intn(3)
		flagsOf := make([][]string, depth+1)
		for k := range flagsOf {
			for _, f := range []string{"f", "flag", "name"} {
				if v.r.Intn(2) == 0 {
					flagsOf[k] = append(flagsOf[k], f)
				}
			}
		}
		var args []string
		for _, a := range []string{"file", "rest"} {
			if v.r.Intn(2) == 0 {
				args = append(args, a)
			}
		}
		chain := []string{"app", "sub", "leaf"}[:depth+1]
		input := fmt.Sprintf("commands %v, flags %v, args %v, patterns %q, after %v", chain, flagsOf, args, patterns, useAfter)
		v.run(input, func() (string, string) {
			hooked := make([][]string, len(patterns))
			filtered := make([][]string, len(patterns))
			var ran, wrong []string
			seen := func(path ...string) cli.Action {
				return cli.ActionFunc(func(c *cli.Context) error {
					p := strings.Join(path, " ")
					if got := c.Path().String(); got != p {
						wrong = append(wrong, fmt.Sprintf("path of %s is %s", p, got))
					}
					ran = append(ran, p)
					for k := range patterns {
						if cli.PatternFilter(patterns[k]).Matches(c) {
							filtered[k] = append(filtered[k], p)
						}
					}
					return nil
				})
			}
			at := func(f *cli.Flag, path ...string) *cli.Flag {
				if useAfter {
					f.After = seen(path...)
				} else {
					f.Before = seen(path...)
				}
				return f
			}
			cmds := make([]*cli.Command, depth+1)
			for k := range cmds {
				name := chain[:k+1]
				cmd := &cli.Command{Name: chain[k]}
				if useAfter {
					cmd.After = seen(name...)
				} else {
					cmd.Before = seen(name...)
				}
				for _, f := range flagsOf[k] {
					d := "-" + f
					if len(f) > 1 {
						d = "--" + f
					}
					cmd.Flags = append(cmd.Flags, at(&cli.Flag{Name: f, Value: cli.Bool()}, append(slices.Clone(name), d)...))
				}
				if k == depth {
					for _, a := range args {
						arg := &cli.Arg{Name: a, Value: cli.String(), NArg: cli.OptionalArg(nil)}
						path := append(slices.Clone(name), "<"+a+">")
						if useAfter {
							arg.After = seen(path...)
						} else {
							arg.Before = seen(path...)
						}
						cmd.Args = append(cmd.Args, arg)
					}
				}
				cmds[k] = cmd
				if k > 0 {
					cmds[k-1].Subcommands = []*cli.Command{cmd}
				}
			}
			var uses []cli.Action
			for k, p := range patterns {
				record := cli.ActionFunc(func(c *cli.Context) error {
					hooked[k] = append(hooked[k], c.Path().String())
					return nil
				})
				if useAfter {
					uses = append(uses, cli.HookAfter(p, record))
				} else {
					uses = append(uses, cli.HookBefore(p, record))
				}
			}
			app := &cli.App{Name: "app", Flags: cmds[0].Flags, Args: cmds[0].Args, Commands: cmds[0].Subcommands,
				Before: cmds[0].Before, After: cmds[0].After,
				Uses: cli.ActionPipeline(uses), Stdout: io.Discard, Stderr: io.Discard}
			if err := app.RunContext(nil, chain); err != nil {
				return "no error", vfErr(err)
			}
			if len(wrong) > 0 {
				return "", strings.Join(wrong, "; ")
			}
			builtin := func(s string) bool {
				return !slices.Contains(ran, s)
			}
			for k, p := range patterns {
				var want []string
				for _, s := range ran {
					if vfPatMatch(p, strings.Split(s, " ")) {
						want = append(want, s)
					}
				}
				got := slices.DeleteFunc(slices.Clone(hooked[k]), builtin)
				slices.Sort(want)
				slices.Sort(got)
				slices.Sort(filtered[k])
				if fmt.Sprint(filtered[k]) != fmt.Sprint(want) {
					return fmt.Sprintf("filter %q matches %q", p, want), fmt.Sprintf("matches %q", filtered[k])
				}
				if p == "" { // a hook on the empty pattern is on the element that sets it up
					want, got = []string{"app"}, hooked[k]
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Sprintf("hook %q on %q", p, want), fmt.Sprintf("on %q", got)
				}
				for _, s := range hooked[k] {
					if !vfPatMatch(p, strings.Split(s, " ")) {
						return fmt.Sprintf("hook %q not on %q", p, s), "hook ran"
					}
				}
			}
			return "", ""
		})
	}
	v.done()
}
