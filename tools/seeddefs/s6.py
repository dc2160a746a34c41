from s1 import demo
SEEDS = [
 dict(id="C12-implied-parent", prop="C12", file="context.go",
  old="		return f.internalFlags().impliedAction() || parent.internalFlags().impliedAction()", new="		return f.internalFlags().impliedAction() && (parent == nil || !f.internalFlags().hidden()) || parent.internalFlags().impliedAction() && !parent.internalFlags().hidden()",
  needs="a hidden flag that asks for its action when its value is implied",
  breaks="the action of a hidden flag with an implied value does not run",
  demo=demo('''
	ran := 0
	app := &cli.App{Name: "app", Action: func() {}, Flags: []*cli.Flag{{Name: "f", Value: cli.String(), Options: cli.ImpliedAction | cli.Hidden,
		Uses: cli.Implicitly(cli.ActionOf(func(c *cli.Context) error { return c.SetValue("x") })), Action: func() { ran++ }}}}
	app.RunContext(context.Background(), []string{"app"})
	if ran != 1 { fail("ran %d", ran) }
''', ["context"])),
 dict(id="C12-late-before", prop="C12", file="context.go",
  old="	if c.timing > actual {\n		return c.internalError(ErrTimingTooLate)\n	}\n	return nil", new="	if c.timing > actual && (c.timing != AfterTiming || actual != BeforeTiming) {\n		return c.internalError(ErrTimingTooLate)\n	}\n	return nil",
  needs="registering a Before action from an After action",
  breaks="the registration is silently ignored instead of being an error",
  demo=demo('''
	var err error
	app := &cli.App{Name: "app", Action: func() {}, After: func(c *cli.Context) error { err = c.Before(cli.ActionOf(func() {})); return nil }}
	app.RunContext(context.Background(), []string{"app"})
	if err == nil { fail("no error") }
''', ["context"])),
 dict(id="C12-after-args-first", prop="C12", file="context.go",
  old="		for _, f := range ctx.LocalArgs() {\n			err := on(ctx.newChild(f).setTiming(t))\n			if err != nil {\n				return err\n			}\n		}",
  new="		for i, f := range ctx.LocalArgs() {\n			if t == AfterTiming && i > 0 && !f.Seen() {\n				break\n			}\n			err := on(ctx.newChild(f).setTiming(t))\n			if err != nil {\n				return err\n			}\n		}",
  needs="a second arg that was not given, with an After action",
  breaks="its After action does not run",
  demo=demo('''
	ran := 0
	a := func(n string) *cli.Arg { return &cli.Arg{Name: n, Value: cli.String(), After: func() { ran++ }} }
	app := &cli.App{Name: "app", Action: func() {}, Args: []*cli.Arg{a("a"), a("b"), a("c")}}
	app.RunContext(context.Background(), []string{"app"})
	if ran != 3 { fail("%d ran", ran) }
''', ["context"])),
 dict(id="C12-validator-after-value", prop="C12", file="action.go",
  old="	case BeforeTiming, ValidatorTiming, ImplicitValueTiming, justBeforeTiming:\n		actualIndex := actualBeforeIndex[t]",
  new="	case BeforeTiming, ValidatorTiming, ImplicitValueTiming, justBeforeTiming:\n		actualIndex := actualBeforeIndex[t]\n		if t == ValidatorTiming && len(p.Before[actualBeforeIndexBeforeTiming]) > 1 {\n			actualIndex = actualBeforeIndexBeforeTiming\n		}",
  needs="a validator registered after two Before actions of the same element",
  breaks="the validator runs after those Before actions",
  demo=demo('''
	var log []string
	l := func(s string) cli.Action { return cli.ActionOf(func() { log = append(log, s) }) }
	app := &cli.App{Name: "app", Action: func() {}, Uses: cli.Pipeline(cli.Before(l("b")), cli.Before(l("c")), cli.At(cli.ValidatorTiming, l("v")))}
	app.RunContext(context.Background(), []string{"app"})
	if log[0] != "v" { fail("%v", log) }
''', ["context"])),
]
