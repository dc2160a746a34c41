from s1 import demo
SEEDS = [
 dict(id="C19-rtl-multi", prop="C19", file="internal/synopsis/synopsis.go",
  old='''		for i, p := range args {
			if p.Optional {''',
  new='''		for i, p := range args {
			if p.Optional || p.Multi {''',
  needs="a right-to-left command with a required arg of several values before the optional ones",
  breaks="the usage line shows the required arg in brackets",
  demo=demo('''
	c := &cli.Command{Name: "c", Options: cli.RightToLeft, Args: []*cli.Arg{{Name: "a", NArg: 2, Value: cli.List()}, {Name: "b"}}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{c}}
	if _, err := app.Initialize(context.Background()); err != nil { fail("%v", err) }
	if c.Synopsis() != "c <a>... [<b>]" { fail("%q", c.Synopsis()) }
''', ["context"])),
 dict(id="C19-hidden-required", prop="C19", file="command.go",
  old='''	if f.internalFlags().hidden() {
		return synopsis.Hidden
	}
''',
  new='''	if f.internalFlags().hidden() && !f.internalFlags().required() {
		return synopsis.Hidden
	}
''',
  needs="a flag that is required and hidden",
  breaks="the usage line shows the hidden flag",
  demo=demo('''
	c := &cli.Command{Name: "c", Flags: []*cli.Flag{{Name: "secret", Value: cli.Bool(), Options: cli.Required | cli.Hidden}}}
	app := &cli.App{Name: "app", Commands: []*cli.Command{c}}
	if _, err := app.Initialize(context.Background()); err != nil { fail("%v", err) }
	if strings.Contains(c.Synopsis(), "secret") { fail("%q", c.Synopsis()) }
''', ["context", "strings"])),
 dict(id="C19-placeholder-ten", prop="C19", file="internal/synopsis/placeholder.go",
  old='''	return p[i].pos < p[j].pos''',
  new='''	return p[i].pos%10 < p[j].pos%10''',
  needs="a placeholder with a number of two digits",
  breaks="the placeholders of the usage are in the wrong order",
  demo=demo('''
	f := &cli.Flag{Name: "f", Value: cli.String(), HelpText: "between {10:A} and {9:Z}"}
	if f.Synopsis() != "-f Z A" { fail("%q", f.Synopsis()) }
''', [])),
 dict(id="C19-wrap-csi", prop="C19", file="usage.go",
  old='''		case ansi:
			if isCSITerminator(c) {
				ansi = false
			}
		default:
			n++''',
  new='''		case ansi:
			if isCSITerminator(c) {
				ansi = n > 2
			}
		default:
			n++''',
  needs="an escape sequence after the third character of a word in a text that is wrapped",
  breaks="the rest of the word has no width, so lines go beyond the limit",
  demo=demo('''
	var buf bytes.Buffer
	cli.Wrap(&buf, "aaaa\\x1b[1mbbbbbbbbbbbbbbb\\x1b[0m cc dd ee ff gg", "", 20)
	for _, l := range strings.Split(strings.NewReplacer("\\x1b[1m", "", "\\x1b[0m", "").Replace(buf.String()), "\\n") {
		if len(l) > 23 { fail("the line %q is too long", l) }
	}
''', ["bytes", "strings"])),
]
