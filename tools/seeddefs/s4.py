from s1 import demo
SEEDS = [
 dict(id="C10-required-stays", prop="C10", file="flag.go",
  old="	f.setInternalFlags(internalFlagRequired, v)", new="	f.setInternalFlags(internalFlagRequired, v || f.Options&Required != 0)",
  needs="SetRequired(false) on a flag that was declared with the Required option",
  breaks="the required option of such a flag cannot be cleared",
  demo=demo('''
	f := &cli.Flag{Name: "f", Value: cli.Bool(), Options: cli.Required}
	f.Uses = cli.ActionOf(func(*cli.Context) error { f.SetRequired(false); return nil })
	app := &cli.App{Name: "app", Flags: []*cli.Flag{f}}
	if err := app.RunContext(context.Background(), []string{"app"}); err != nil { fail("%v", err) }
''', ["context"])),
 dict(id="C10-text-replaces", prop="C10", file="option.go",
  old="	res := *o\n	for _, s := range strings.Split(string(b), \",\") {", new="	var res Option\n	for _, s := range strings.Split(string(b), \",\") {",
  needs="option names read onto a value that already has options",
  breaks="reading option names discards the options that were there",
  demo=demo('''
	o := cli.Hidden
	o.UnmarshalText([]byte("REQUIRED"))
	if o != cli.Hidden|cli.Required { fail("%v", o) }
''')),
]
