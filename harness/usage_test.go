package cli_test

import (
	"bytes"
	"context"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"

	cli "github.com/Carbonfrost/joe-cli"
)

type vfUse struct {
	names    []string
	kind     int // 0 bool, 1 string, 2 int, 3 list
	usage    string
	help     []string // pieces of the help text: plain, or {name} or {n:name}
	opt      cli.Option
	group    int
	byMethod bool
}

var vfHolder = regexp.MustCompile(`^\{(?:([0-9]+):)?(.+)\}$`)

// placeholders in the order of their numbers, those without one first, and the text without braces
func (u vfUse) placeholders() (string, string) {
	type ph struct {
		n    int
		name string
	}
	var all []ph
	seen := map[string]bool{}
	text := ""
	for _, p := range u.help {
		m := vfHolder.FindStringSubmatch(p)
		if m == nil {
			text += p
			continue
		}
		text += m[2]
		if seen[m[2]] {
			continue
		}
		seen[m[2]] = true
		n := -1
		if m[1] != "" {
			fmt.Sscan(m[1], &n)
		}
		all = append(all, ph{n, m[2]})
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].n < all[j].n })
	var names []string
	for _, p := range all {
		names = append(names, p.name)
	}
	return strings.Join(names, " "), text
}

func (u vfUse) value() string {
	if u.usage != "" {
		return u.usage
	}
	if p, _ := u.placeholders(); p != "" {
		return p
	}
	return []string{"", "STRING", "NUMBER", "VALUES"}[u.kind]
}

// primary: the first long name with =value, or the first short name and the value after a blank; all: with the first short name before
func (u vfUse) text() (primary, all, short string) {
	var long string
	for _, n := range u.names {
		if len(n) == 1 && short == "" {
			short = n
		}
		if len(n) > 1 && long == "" {
			long = n
		}
	}
	val := u.value()
	switch {
	case long == "":
		if val != "" {
			val = " " + val
		}
		return "-" + short + val, "-" + short + val, short
	case val != "":
		val = "=" + val
	}
	primary = "--" + long + val
	all = primary
	if short != "" {
		all = "-" + short + ", " + primary
	}
	return primary, all, short
}

// TestVerifC19Synopsis compares the usage line of commands and flags with the documented syntax.
func TestVerifC19Synopsis(t *testing.T) {
	v := vfNew(t, "synopsis", "the usage line has the name, each visible flag once, as required, optional, combined or exclusive, and each visible arg once, required ones before the optional ones in brackets")
	n := v.n(3000, 40000)
	shorts := strings.Split("qwertyuiopasdfgjklzxcvbnm", "")
	for i := 0; i < n && !v.timeUp(); i++ {
		perm := v.r.Perm(len(shorts))
		flags := make([]vfUse, v.r.Intn(7))
		for k := range flags {
			s, l := shorts[perm[2*k]], fmt.Sprintf("%s-long%d", vfPick(v.r, []string{"a", "z", "mm"}), k)
			f := &flags[k]
			f.names = [][]string{{s}, {l}, {s, l}, {l, s}, {s, shorts[perm[2*k+1]]}, {l, l + "x", s}}[v.r.Intn(6)]
			f.kind = vfPick(v.r, []int{0, 0, 0, 1, 2, 3})
			if f.kind != 0 {
				f.usage = vfPick(v.r, []string{"", "", "", "USE", "<use>"})
				f.help = vfPick(v.r, [][]string{{"plain text"}, {"reads ", "{FILE}", " in full"}, {"from ", "{2:B}", " to ", "{1:A}"}, {"{X}", " then ", "{X}"}, {"{3:C}", "{9:A}", " or ", "{Z}"}, {"é ", "{10:J}", " ", "{9:I}", " {}"}})
			}
			f.opt = vfPick(v.r, []cli.Option{0, 0, 0, cli.Required, cli.Required, cli.Hidden, cli.Exits, cli.Hidden | cli.Required})
		}
		type vfArgUse struct {
			narg   any
			usage  string
			hidden bool
		}
		args := make([]vfArgUse, v.r.Intn(5))
		for k := range args {
			args[k] = vfArgUse{vfPick(v.r, []any{nil, 0, 0, 1, 1, 2, -1, -2, 3}), vfPick(v.r, []string{"", "", "THING", "[x]"}), v.r.Intn(6) == 0}
		}
		rtl := v.r.Intn(3) == 0
		v.run(fmt.Sprintf("flags %v args %v rtl %v", flags, args, rtl), func() (string, string) {
			c := &cli.Command{Name: "c"}
			if rtl {
				c.Options = cli.RightToLeft
			}
			for _, f := range flags {
				fl := &cli.Flag{Name: f.names[0], Aliases: f.names[1:], UsageText: f.usage, HelpText: strings.Join(f.help, ""), Options: f.opt}
				fl.Value = []any{cli.Bool(), cli.String(), cli.Int(), cli.List()}[f.kind]
				c.Flags = append(c.Flags, fl)
			}
			for k, a := range args {
				ar := &cli.Arg{Name: fmt.Sprintf("arg%d", k), NArg: a.narg, UsageText: a.usage}
				if a.hidden {
					ar.Options = cli.Hidden
				}
				c.Args = append(c.Args, ar)
			}
			var out bytes.Buffer
			app := &cli.App{Name: "app", Commands: []*cli.Command{c}, Stdout: &out, Stderr: &out}
			if _, err := app.Initialize(context.Background()); err != nil {
				return "initialised", err.Error()
			}
			var exits, required, optional []string
			var shortReq, shortOpt []string
			for _, f := range flags {
				p, _, s := f.text()
				switch {
				case f.opt&cli.Hidden != 0:
				case f.opt&cli.Exits != 0:
					exits = append(exits, p)
				case len(f.names[0]) == 1 && f.kind == 0 && f.opt&cli.Required != 0:
					shortReq = append(shortReq, s)
				case len(f.names[0]) == 1 && f.kind == 0:
					shortOpt = append(shortOpt, s)
				case f.opt&cli.Required != 0:
					required = append(required, p)
				default:
					optional = append(optional, p)
				}
			}
			words := []string{"c"}
			if len(exits) > 0 {
				words = append(words, "{"+strings.Join(exits, " | ")+"}")
			}
			sort.Strings(shortReq)
			sort.Strings(shortOpt)
			if len(shortReq) > 0 {
				words = append(words, "-"+strings.Join(shortReq, ""))
			}
			if len(shortOpt) > 0 {
				words = append(words, "[-"+strings.Join(shortOpt, "")+"]")
			}
			for _, o := range optional {
				words = append(words, "["+o+"]")
			}
			words = append(words, required...)
			var req, opt []string
			for k, a := range args {
				if a.hidden {
					continue
				}
				s := a.usage
				if s == "" {
					s = fmt.Sprintf("<arg%d>", k)
				}
				num, isNum := a.narg.(int)
				if isNum && (num < 0 || num > 1) {
					s += "..."
				}
				if a.narg == nil || num == 0 || rtl && len(opt) > 0 {
					opt = append(opt, s)
				} else {
					req = append(req, s)
				}
			}
			words = append(words, req...)
			if len(opt) > 0 && rtl {
				words = append(words, strings.Repeat("[", len(opt))+strings.Join(opt, "] ")+"]")
			} else if len(opt) > 0 {
				words = append(words, "["+strings.Join(opt, "][")+"]")
			}
			if want, got := strings.Join(words, " "), c.Synopsis(); want != got {
				return want, got
			}
			for k, f := range flags {
				if _, all, _ := f.text(); c.Flags[k].Synopsis() != all {
					return all, c.Flags[k].Synopsis()
				}
			}
			return "", ""
		})
	}
	v.done()
}

// TestVerifC19Help checks the help screen: the usage line, and the help text with its placeholders by name.
func TestVerifC19Help(t *testing.T) {
	v := vfNew(t, "help", "the help screen has the usage line and the help text of each flag with its placeholders replaced by their names")
	n := v.n(150, 2000)
	for i := 0; i < n && !v.timeUp(); i++ {
		var pieces []string
		for k := 1 + v.r.Intn(5); k > 0; k-- {
			pieces = append(pieces, vfPick(v.r, []string{"some ", "{FILE}", "word ", "{2:B}", "{1:A}", "{}", "{0:é}", "{ ", "end "}))
		}
		pieces = append([]string{"T "}, append(pieces, " T")...)
		joined := strings.Join(pieces, "")
		if strings.Contains(joined, "{ ") || strings.Contains(joined, "{}") && strings.Count(joined, "{") > 1 {
			continue // an unmatched brace takes what follows
		}
		u := vfUse{names: []string{"flag"}, kind: 1, help: pieces}
		v.run(fmt.Sprintf("help text %q", joined), func() (string, string) {
			var out bytes.Buffer
			app := &cli.App{Name: "app", Stdout: &out, Stderr: &out, Flags: []*cli.Flag{{Name: "flag", Value: cli.String(), HelpText: joined}}}
			_ = app.RunContext(context.Background(), []string{"app", "--help"})
			p, text := u.placeholders()
			if p == "" {
				p = "STRING"
			}
			got := strings.Join(strings.Fields(out.String()), " ")
			want := "--flag=" + p + " " + strings.Join(strings.Fields(text), " ")
			if !strings.Contains(got, want) {
				return want, out.String()
			}
			if !strings.Contains(got, "[--flag="+p+"]") {
				return "[--flag=" + p + "]", out.String()
			}
			return "", ""
		})
	}
	v.done()
}

var vfAnsi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

// TestVerifC19Wrap checks that wrapping changes only blanks and the places of line ends.
func TestVerifC19Wrap(t *testing.T) {
	v := vfNew(t, "wrap", "wrapped text has the words of each line of the text, in order and whole, on lines of their own; only the last word of a line goes beyond the width; a continued line starts with the indent")
	n := v.n(40000, 600000)
	for i := 0; i < n && !v.timeUp(); i++ {
		var sb strings.Builder
		for k := v.r.Intn(16); k > 0; k-- {
			sb.WriteString(vfPick(v.r, []string{"a", "bb", "cccc", " ", " ", " ", "  ", "\n", "é", "word ", "\t", "x\x1b[0m", "\x1b[31my", " longerword"}))
		}
		text := sb.String()
		width, indent := v.r.Intn(24), strings.Repeat(" ", v.r.Intn(5))
		v.run(fmt.Sprintf("text %q indent %q width %d", text, indent, width), func() (string, string) {
			var buf bytes.Buffer
			cli.Wrap(&buf, text, indent, width)
			got := buf.String()
			if width == 0 {
				if got != text+"\n" && got != text {
					return fmt.Sprintf("%q", text), fmt.Sprintf("%q", got)
				}
				return "", ""
			}
			if strings.Join(vfAnsi.FindAllString(got, -1), "") != strings.Join(vfAnsi.FindAllString(text, -1), "") {
				return "the escape sequences are kept", fmt.Sprintf("%q", got)
			}
			text, got := vfAnsi.ReplaceAllString(text, ""), vfAnsi.ReplaceAllString(got, "")
			ol := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
			for _, line := range strings.Split(text, "\n") {
				want := strings.Fields(line)
				var acc []string
				for first := true; first || len(acc) < len(want); first = false {
					if len(ol) == 0 {
						return fmt.Sprintf("the words %q", want), fmt.Sprintf("%q", got)
					}
					f := strings.Fields(ol[0])
					if !first && len(indent) < width && line == strings.TrimLeft(line, " \t") && !strings.HasPrefix(ol[0], indent) {
						return fmt.Sprintf("line %q starts with the indent", ol[0]), fmt.Sprintf("%q", got)
					}
					if len(f) > 1 {
						if head := strings.TrimRight(ol[0][:strings.LastIndex(ol[0], f[len(f)-1])], " \t"); len([]rune(head)) >= width && len([]rune(strings.TrimLeft(head, " \t"))) >= width {
							return fmt.Sprintf("%q is at most one word wider than %d", ol[0], width), fmt.Sprintf("%q", got)
						}
					}
					acc = append(acc, f...)
					ol = ol[1:]
				}
				if fmt.Sprint(acc) != fmt.Sprint(want) {
					return fmt.Sprintf("the words %q", want), fmt.Sprintf("%q in %q", acc, got)
				}
			}
			if len(ol) > 0 && strings.TrimSpace(strings.Join(ol, "")) != "" {
				return "nothing after the text", fmt.Sprintf("%q", got)
			}
			return "", ""
		})
	}
	v.done()
}
