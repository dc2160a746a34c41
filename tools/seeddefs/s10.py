from s1 import demo
SEEDS = [
 dict(id="C17-hidden-required", prop="C17", file="context.go",
  old='''	if c.option().internalFlags().required() {
		if !c.Seen("") {''',
  new='''	if flags := c.option().internalFlags(); flags.required() && !flags.hidden() {
		if !c.Seen("") {''',
  needs="an option that is both required and hidden, not given",
  breaks="the run succeeds without it",
  demo=demo('''
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "token", Value: cli.String(), Options: cli.Required | cli.Hidden}}, Action: func() {}}
	if err := app.RunContext(context.Background(), []string{"app"}); err == nil { fail("a required option was not given and the run succeeded") }
''', ["context"])),
 dict(id="C17-empty-enum", prop="C17", file="action.go",
  old='''				for _, occur := range raw {
					if _, ok''',
  new='''				for _, occur := range raw {
					if occur == "" && len(raw) > 1 {
						continue // left empty
					}
					if _, ok''',
  needs="an enumerated option given several times, once with an empty value",
  breaks="the empty value is accepted although it is not listed",
  demo=demo('''
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "color", Value: cli.List(), Uses: cli.Enum("red", "blue")}}, Action: func() {}}
	if err := app.RunContext(context.Background(), []string{"app", "--color=red", "--color="}); err == nil { fail("an empty value was accepted") }
''', ["context"])),
 dict(id="C17-mutex-later", prop="C17", file="action.go",
  old='''			for _, o := range names {
				if c.Seen(o) {''',
  new='''			for i, o := range names {
				if c.Seen(o) && (i == 0 || c.Occurrences(o) == 1) {''',
  needs="three exclusive options, the one not named first given twice",
  breaks="an option given together with an exclusive one is accepted",
  demo=demo('''
	app := &cli.App{Name: "app", Flags: []*cli.Flag{
		{Name: "one", Value: cli.Bool(), Uses: cli.Mutex("two", "three")},
		{Name: "two", Value: cli.Bool()}, {Name: "three", Value: cli.Bool()},
	}, Action: func() {}}
	if err := app.RunContext(context.Background(), []string{"app", "--one", "--three", "--three"}); err == nil { fail("--one and --three were both accepted") }
''', ["context"])),
]
