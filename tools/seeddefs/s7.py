from s1 import demo
SEEDS = [
 dict(id="C13-env-empty-stops", prop="C13", file="action.go",
  old="			if val := os.Getenv(envVar); val != \"\" {\n				c.SetValue(val)\n				return nil\n			}",
  new="			if val, ok := os.LookupEnv(envVar); ok {\n				if val != \"\" {\n					c.SetValue(val)\n				}\n				return nil\n			}",
  needs="an environment variable that is set but empty before one that is not empty",
  breaks="the second variable is not considered",
  demo=demo('''
	os.Setenv("VFD_A", ""); os.Setenv("VFD_B", "b")
	var got string
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "f", Value: cli.String(), EnvVars: []string{"VFD_A", "VFD_B"}}}, Action: func(c *cli.Context) { got = c.String("f") }}
	app.RunContext(context.Background(), []string{"app"})
	if got != "b" { fail("got %q", got) }
''', ["context"])),
 dict(id="C13-file-first", prop="C13", file="context.go",
  old="		FromEnv(opt.envVars()...),\n		FromFilePath(nil, opt.filePath()),",
  new="		FromFilePath(nil, opt.filePath()),\n		FromEnv(opt.envVars()...),",
  needs="an option with both an environment variable and a file that exists",
  breaks="the file wins over the environment",
  demo=demo('''
	os.Setenv("VFD_A", "env")
	var got string
	app := &cli.App{Name: "app", FS: fstest.MapFS{"x": &fstest.MapFile{Data: []byte("file")}}, Flags: []*cli.Flag{{Name: "f", Value: cli.String(), EnvVars: []string{"VFD_A"}, FilePath: "x"}}, Action: func(c *cli.Context) { got = c.String("f") }}
	app.RunContext(context.Background(), []string{"app"})
	if got != "env" { fail("got %q", got) }
''', ["context", "testing/fstest"])),
 dict(id="C13-env-name-arg", prop="C13", file="action.go",
  old="	name = strings.Trim(name, \"-\")\n	name = strings.ReplaceAll(name, \"-\", \"_\")",
  new="	name = strings.Trim(name, \"-\")\n	name = strings.Replace(name, \"-\", \"_\", 1)",
  needs="a flag whose name has two dashes inside and a variable with {}",
  breaks="the variable that is read keeps the second dash",
  demo=demo('''
	os.Setenv("VFD_A_B_C", "env")
	var got string
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "a-b-c", Value: cli.String(), EnvVars: []string{"VFD{}"}}}, Action: func(c *cli.Context) { got = c.String("a-b-c") }}
	app.RunContext(context.Background(), []string{"app"})
	if got != "env" { fail("got %q", got) }
''', ["context"])),
]
