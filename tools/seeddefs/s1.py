def demo(body, imports=()):
    imps = "\n".join('\t"%s"' % i for i in ("fmt", "os") + tuple(imports))
    return '''package main

import (
%s

	cli "github.com/Carbonfrost/joe-cli"
)

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

var _ = cli.TakeRemaining

func main() {
%s
}
''' % (imps, body)

SEEDS = [
 dict(id="C01-empty-token", prop="C01", file="set.go",
  old="		output = append(output, arg)\n		_ = a.pop()",
  new="		if arg != \"\" {\n			output = append(output, arg)\n		}\n		_ = a.pop()",
  needs="a flag that takes several values, one of which is the empty token",
  breaks="an empty token taken by a flag is consumed without being recorded among its values",
  demo=demo('''
	b := cli.NewBinding([]*cli.Flag{{Name: "point", Value: cli.List()}}, nil, nil)
	m, err := cli.RawParse([]string{"app", "--point", "", "7"}, b, cli.RawSkipProgramName)
	if err != nil { fail("%v", err) }
	if got := fmt.Sprintf("%q", m.Raw("point")); got != `["--point" "" "7"]` { fail("%s", got) }
''')),
 dict(id="C02-last-equals", prop="C02", file="set.go",
  old="e := strings.IndexRune(arg, '=')", new="e := strings.LastIndexByte(arg, '=')",
  needs="a long flag whose value itself contains an equal sign",
  breaks="--name=value splits at the last = instead of the first",
  demo=demo('''
	b := cli.NewBinding([]*cli.Flag{{Name: "define", Value: new(string)}}, nil, nil)
	m, err := cli.RawParse([]string{"app", "--define=k=v"}, b, cli.RawSkipProgramName)
	if err != nil { fail("%v", err) }
	if got := fmt.Sprintf("%q", m.Raw("define")); got != `["--define" "k=v"]` { fail("%s", got) }
''')),
 dict(id="C04-empty-value-token", prop="C04", file="set.go",
  old="			if len(arg) > 0 && arg[0] == '-' && possibleFlag {\n				break",
  new="			if arg[0] == '-' && possibleFlag {\n				break",
  needs="an empty token following a flag that has already taken all its values",
  breaks="parsing panics on an empty token after a flag instead of treating it as an argument",
  demo=demo('''
	b := cli.NewBinding([]*cli.Flag{{Name: "f", Value: new(string)}}, []*cli.Arg{{Name: "a", Value: new(string)}}, nil)
	defer func() { if e := recover(); e != nil { fail("panic: %v", e) } }()
	_, err := cli.RawParse([]string{"app", "--f", "x", ""}, b, cli.RawSkipProgramName)
	if err != nil { fail("%v", err) }
''')),
 dict(id="C03-done-none", prop="C03", file="arg.go",
  old="	if d.count > 0 {\n		return expectedArgument(d.total)",
  new="	if d.count > 0 && (d.count < d.total || d.total < 3) {\n		return expectedArgument(d.total)",
  needs="an argument with a count of three or more that receives no token at all",
  breaks="a count of three or more is satisfied by no tokens",
  demo=demo('''
	b := cli.NewBinding(nil, []*cli.Arg{{Name: "a", NArg: 3, Value: cli.List()}}, nil)
	_, err := cli.RawParse([]string{"app"}, b, cli.RawSkipProgramName)
	if err == nil { fail("no error") }
''')),
 dict(id="C03-dash-after-separator", prop="C03", file="arg.go",
  old="	if v.stopOnFlags && allowFlag(arg, possibleFlag) {", new="	if v.stopOnFlags && (allowFlag(arg, possibleFlag) || v.intersperse && allowFlag(arg, true)) {",
  needs="an argument that takes everything except flags, and a token that looks like a flag after --",
  breaks="after --, a dashed token is not taken as a value by a take-except-for-flags argument",
  demo=demo('''
	b := cli.NewBinding(nil, []*cli.Arg{{Name: "a", NArg: cli.TakeExceptForFlags, Value: cli.List()}, {Name: "b", NArg: cli.TakeExceptForFlags, Value: cli.List()}}, nil)
	m, err := cli.RawParse([]string{"app", "--", "-x"}, b, cli.RawSkipProgramName)
	if err != nil { fail("%v", err) }
	if got := fmt.Sprintf("%q", append(m.RawOccurrences("a"), m.RawOccurrences("b")...)); got != `["-x"]` { fail("%s", got) }
''')),
 dict(id="C01-cluster-name", prop="C01", edits=[("set.go",
  "		for i, c := range arg {\n			short := \"-\" + string(c)\n", "		var short string\n		for i, c := range arg {\n			if i < 3 {\n				short = \"-\" + string(c)\n			}\n")],
  needs="a cluster of four or more short flags",
  breaks="occurrences in a long cluster are recorded under the spelling of an earlier flag",
  demo=demo('''
	var got []string
	b := func() any { return new(bool) }
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "a", Value: b()}, {Name: "b", Value: b()}, {Name: "c", Value: b()}, {Name: "d", Value: b()}},
		Action: func(c *cli.Context) { got = c.Raw("d") }}
	if err := app.RunContext(context.Background(), []string{"app", "-abcd"}); err != nil { fail("%v", err) }
	if len(got) == 0 || got[0] != "-d" { fail("%q", got) }
''', ['context'])),
]
