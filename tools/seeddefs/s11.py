from s1 import demo
SEEDS = [
 dict(id="C18-hidden-clash", prop="C18", file="command.go",
  old='\t\tnames[a.Name] = true\n',
  new='\t\tnames[a.Name] = !a.internalFlags().hidden()\n',
  needs="a hidden arg and a flag or arg of the same name",
  breaks="the clash is not reported",
  demo=demo('''
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "file", Value: cli.String()}}, Args: []*cli.Arg{{Name: "file", Value: cli.String(), Options: cli.Hidden}}}
	if _, err := app.Initialize(context.Background()); err == nil { fail("a flag and an arg of the same name were accepted") }
''', ["context"])),
 dict(id="C18-visible-subs", prop="C18", file="command.go",
  old='''	for _, o := range c.Subcommands {
		if o.internalFlags().hidden() {''',
  new='''	for _, o := range c.Subcommands {
		if flags := o.internalFlags(); flags.hidden() && !flags.visibleExplicitlyRequested() || o.Name == "" {''',
  needs="a sub-command declared visible that is hidden later",
  breaks="it is still listed",
  demo=demo('''
	sub := &cli.Command{Name: "sub", Options: cli.Visible}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}}
	if _, err := app.Initialize(context.Background()); err != nil { fail("%v", err) }
	sub.SetHidden(true)
	for _, c := range (&cli.Command{Subcommands: []*cli.Command{sub}}).VisibleSubcommands() { fail("%s is hidden and listed", c.Name) }
''', ["context"])),
 dict(id="C18-category-fold", prop="C18", file="command.go",
  old='''		if cc.Category == name {
			return cc''',
  new='''		if strings.EqualFold(cc.Category, name) {
			return cc''',
  needs="two categories of commands whose names differ only by case",
  breaks="the commands of one are listed under the other",
  demo=demo('''
	var out bytes.Buffer
	app := &cli.App{Name: "app", Stdout: &out, Stderr: &out, Commands: []*cli.Command{{Name: "one", Category: "Net"}, {Name: "two", Category: "NET"}}}
	_ = app.RunContext(context.Background(), []string{"app", "--help"})
	if !strings.Contains(out.String(), "NET:") || !strings.Contains(out.String(), "Net:") { fail("a category is missing: %s", out.String()) }
''', ["context", "bytes", "strings"])),
]
