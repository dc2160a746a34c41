from s1 import demo
SEEDS = [
 dict(id="C16-empty-zero", prop="C16", file="error.go",
  old='	if message == "" {\n		message = fmt.Sprintf("exited',
  new='	if message == "" && code != 0 {\n		message = fmt.Sprintf("exited',
  needs="an exit request for status 0 without a message",
  breaks="the message is empty",
  demo=demo('''
	if e := cli.Exit(0); e.Error() != "exited with status 0" { fail("message %q", e.Error()) }
''', [])),
 dict(id="C16-prints-success", prop="C16", file="app.go",
  old='	if message != "" && status != 0 {',
  new='	if message != "" {',
  needs="an exit request for status 0 with the default exit handler",
  breaks="the message is printed as if it was a failure",
  demo=demo('''
	if os.Getenv("VFD_CHILD") != "" {
		app := &cli.App{Name: "app", Action: func() error { return cli.Exit("done", 0) }}
		app.Run([]string{"app"})
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VFD_CHILD=1")
	out, _ := cmd.CombinedOutput()
	if len(out) != 0 { fail("printed %q", out) }
''', ["os/exec"])),
 dict(id="C16-coder-operand", prop="C16", file="error.go",
  old='''		default:
			return exitCore(fmt.Sprint(message...), 1)
		}''',
  new='''		case ExitCoder:
			return exitCore(fmt.Sprint(message...), code.ExitCode())
		default:
			return exitCore(fmt.Sprint(message...), 1)
		}''',
  needs="several operands of which the last is an error with a status of its own",
  breaks="the status is the one of the error, not 1",
  demo=demo('''
	if e := cli.Exit("a", cli.Exit("b", 4)); e.ExitCode() != 1 { fail("status %d", e.ExitCode()) }
''', [])),
]
