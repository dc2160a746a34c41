from s1 import demo
SEEDS = [
 dict(id="C14-first-alias", prop="C14", file="flag.go",
  old="""			return sub, index, true
		}
		if slices.Contains(sub.Aliases, name) {
			return sub, index, true
		}
	}
	return nil, -1, false
}

func isFlagType""",
  new="""			return sub, index, true
		}
		if slices.Contains(sub.Aliases[:min(1, len(sub.Aliases))], name) {
			return sub, index, true
		}
	}
	return nil, -1, false
}

func isFlagType""",
  needs="a flag looked up by its second alias",
  breaks="the flag is not found",
  demo=demo('''
	ok := false
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "file", Aliases: []string{"f", "input"}, Value: cli.String()}}, Action: func(c *cli.Context) { _, ok = c.LookupFlag("input") }}
	app.RunContext(context.Background(), []string{"app"})
	if !ok { fail("flag not found by its alias") }
''', ["context"])),
 dict(id="C14-outer-first", prop="C14", file="lookup.go",
  old="	if v, ok := p.lookupCore.lookupValue(name); ok {\n		return v, true\n	}\n\n	return p.parent.lookupValue(name)",
  new="	if v, ok := p.parent.lookupValue(name); ok {\n		return v, true\n	}\n\n	return p.lookupCore.lookupValue(name)",
  needs="an arg of a sub-command with the name of a flag of the root",
  breaks="the value found is the one of the root",
  demo=demo('''
	var got any
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "file", Value: cli.String()}}, Commands: []*cli.Command{{Name: "sub", Args: []*cli.Arg{{Name: "file", Value: cli.String()}}, Action: func(c *cli.Context) { got = c.Value("file") }}}}
	app.RunContext(context.Background(), []string{"app", "--file", "outer", "sub", "inner"})
	if got != "inner" { fail("got %v", got) }
''', ["context"])),
 dict(id="C14-fold-command", prop="C14", file="command.go",
  old="	name := v.(string)\n	for index, sub := range cmds {\n		if sub.Name == name {",
  new="	name := v.(string)\n	for index, sub := range cmds {\n		if strings.EqualFold(sub.Name, name) {",
  needs="two commands whose names differ only in case, or an unknown command that does",
  breaks="the wrong command is found",
  demo=demo('''
	var c *cli.Command
	app := &cli.App{Name: "app", Commands: []*cli.Command{{Name: "sub"}}, Action: func(x *cli.Context) { c, _ = x.LookupCommand("SUB") }}
	app.RunContext(context.Background(), []string{"app"})
	if c != nil { fail("found %s", c.Name) }
''', ["context"])),
 dict(id="C15-dashes", prop="C15", file="context.go",
  old='	if strings.HasPrefix(pattern, "-") && ("-"+pattern) == field {',
  new='	if strings.HasPrefix(pattern, "-") && strings.TrimLeft(pattern, "-") == strings.TrimLeft(field, "-") {',
  needs="a pattern that names a flag with two dashes and a short flag of that name",
  breaks="the pattern matches the short flag",
  demo=demo('''
	if (cli.ContextPath{"app", "-f"}).Match("--f") { fail("--f matches -f") }
''', [])),
 dict(id="C15-any-command", prop="C15", file="context.go",
  old='	return !matchFlag(field) && !matchArg(field) && !matchExpr(field)',
  new='	return !matchFlag(field) && !matchArg(field)',
  needs="a path that ends with an expression",
  breaks="* matches the expression as a command",
  demo=demo('''
	if (cli.ContextPath{"app", "<-name>"}).Match("*") { fail("* matches an expression") }
''', [])),
 dict(id="C15-first-element", prop="C15", file="context.go",
  old='	if pattern == "*" {\n		return matchCommand(field)\n	}\n	if pattern == "-" || pattern == "--" {',
  new='	if pattern == "*" {\n		return matchCommand(field)\n	}\n	if strings.Trim(pattern, "-") == "" {',
  needs="a pattern element made of three dashes",
  breaks="it matches any flag",
  demo=demo('''
	if (cli.ContextPath{"app", "-f"}).Match("---") { fail("--- matches -f") }
''', [])),
]
