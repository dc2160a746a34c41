package cli_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type vfCoder struct {
	text string
	code int
}

func (c vfCoder) Error() string { return c.text }
func (c vfCoder) ExitCode() int { return c.code }

type vfPlainErr string

func (e vfPlainErr) Error() string { return string(e) }

var vfErrCodes = map[cli.ErrorCode]string{
	cli.UnexpectedArgument:     "unexpected argument",
	cli.CommandNotFound:        "is not a command",
	cli.UnknownOption:          "unknown option",
	cli.MissingArgument:        "missing parameter",
	cli.InvalidArgument:        "parameter not valid",
	cli.ExpectedArgument:       "expected argument",
	cli.UnknownExpr:            "unknown expression",
	cli.ArgsMustPrecedeExprs:   "arguments must precede expressions",
	cli.FlagUsedAfterArgs:      "flag used after arguments",
	cli.ExpectedRequiredOption: "is required and must be specified",
}

func vfExitOperands() []any {
	return []any{"", "a", "b c", 0, 1, 2, 3, 255, -1, 70000, nil, cli.UnexpectedArgument, cli.UnknownOption, cli.ExpectedRequiredOption, cli.MissingArgument,
		errors.New("err"), vfPlainErr(""), vfPlainErr("plain"), vfCoder{"coder", 7}, vfCoder{"", 9}, &cli.ParseError{Code: cli.InvalidArgument}, &cli.ParseError{Err: errors.New("in")},
		cli.Exit("x", 4), int8(5), int64(6), uint(7), 1.5, true, []int{1}, int32('r'), fmt.Errorf("wrapped: %w", vfCoder{"inner", 8})}
}

// vfExitWant gives the message and status asked for by the operands of Exit.
func vfExitWant(ops []any) (string, int) {
	def := func(msg string, code int) (string, int) {
		if msg == "" {
			msg = "exited with status " + fmt.Sprint(code)
		}
		return msg, code
	}
	if len(ops) == 0 {
		return def("", 1)
	}
	front, last := ops[:len(ops)-1], ops[len(ops)-1]
	if c, ok := last.(cli.ErrorCode); ok {
		if len(front) == 0 {
			return vfErrCodes[c], 2
		}
		return vfErrCodes[c] + ": " + fmt.Sprint(front...), 2
	}
	if n, ok := last.(int); ok {
		return def(fmt.Sprint(front...), n)
	}
	if len(ops) == 1 {
		if last == nil {
			return def("", 1)
		}
		if e, ok := last.(cli.ExitCoder); ok {
			return e.Error(), e.ExitCode()
		}
	}
	return def(fmt.Sprint(ops...), 1)
}

func vfExitText(msg string, code int) string { return fmt.Sprintf("%q, status %d", msg, code) }

// TestVerifC16Exit compares Exit with the message and status its operands ask for.
func TestVerifC16Exit(t *testing.T) {
	v := vfNew(t, "operands", "Exit gives the status of a trailing integer, 2 for a trailing error code, an error's own status alone, and otherwise 1; an empty message names the status")
	pool := vfExitOperands()
	check := func(ops []any) {
		v.run(fmt.Sprintf("Exit(%#v)", ops), func() (string, string) {
			e := cli.Exit(ops...)
			want := vfExitText(vfExitWant(ops))
			if got := vfExitText(e.Error(), e.ExitCode()); got != want {
				return want, got
			}
			return "", ""
		})
	}
	check(nil)
	for _, a := range pool {
		check([]any{a})
		for _, b := range pool {
			check([]any{a, b})
		}
	}
	n := v.n(2000, 20000)
	for i := 0; i < n && !v.timeUp(); i++ {
		ops := make([]any, 3+v.r.Intn(3))
		for k := range ops {
			ops[k] = vfPick(v.r, pool)
		}
		check(ops)
	}
	v.done()
}

// vfExitErr is an error, what it says and the status that running an application with it exits with.
func vfExitErr(v *vf) (err error, msg string, status int) {
	switch v.r.Intn(6) {
	case 0:
		return nil, "", 0
	case 1:
		e := vfCoder{vfPick(v.r, []string{"", "says"}), vfPick(v.r, []int{0, 1, 2, 3, 42, 255})}
		return e, e.text, e.code
	case 2:
		e := vfPlainErr(vfPick(v.r, []string{"", "plain"}))
		return e, string(e), 1
	default:
		ops := make([]any, v.r.Intn(4))
		for k := range ops {
			ops[k] = vfPick(v.r, vfExitOperands())
		}
		msg, status = vfExitWant(ops)
		return cli.Exit(ops...), msg, status
	}
}

func vfExitApp(where int, err error) (*cli.App, []string) {
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard,
		Flags:    []*cli.Flag{{Name: "flag", Value: cli.String()}, {Name: "n", Value: cli.Int()}},
		Commands: []*cli.Command{{Name: "sub", Action: func() {}}}}
	fail := cli.ActionFunc(func(*cli.Context) error { return err })
	args := []string{"app"}
	switch where {
	case 0:
		app.Action = fail
	case 1:
		app.Before = fail
	case 2:
		app.After = fail
	case 3:
		app.Commands[0].Action = fail
		args = []string{"app", "sub"}
	case 4:
		app.Flags[0].Action = fail
		args = []string{"app", "--flag", "x"}
	case 5:
		app.Uses = fail
	}
	return app, args
}

// TestVerifC16Run compares what the exit handler is told with the error of the run.
func TestVerifC16Run(t *testing.T) {
	v := vfNew(t, "run", "a failed run calls the exit handler once, with the text of the error and its own status, or 1; a run that succeeds does not call it")
	old := cli.ExitHandler
	defer func() { cli.ExitHandler = old }()
	n := v.n(1500, 15000)
	for i := 0; i < n && !v.timeUp(); i++ {
		err, msg, status := vfExitErr(v)
		where := v.r.Intn(6)
		app, args := vfExitApp(where, err)
		parse := ""
		if v.r.Intn(5) == 0 {
			parse = vfPick(v.r, []string{"--nope", "extra", "--flag"})
			app, args = vfExitApp(-1, nil)
			args = append(args, parse)
		}
		v.run(fmt.Sprintf("run %v, error %#v in %d", args, err, where), func() (string, string) {
			var calls []string
			cli.ExitHandler = func(c *cli.Context, m string, s int) {
				if c == nil {
					calls = append(calls, "no context")
				}
				if parse != "" && s == 2 {
					m = "parse error"
				}
				calls = append(calls, vfExitText(m, s))
			}
			app.Run(args)
			var want []string
			if parse != "" {
				want = []string{vfExitText("parse error", 2)}
			} else if err != nil {
				want = []string{vfExitText(msg, status)}
			}
			if fmt.Sprint(calls) != fmt.Sprint(want) {
				return fmt.Sprint(want), fmt.Sprint(calls)
			}
			// the error itself is what RunContext gives
			if parse == "" {
				app, args := vfExitApp(where, err)
				if e := app.RunContext(context.Background(), args); fmt.Sprint(e) != fmt.Sprint(err) {
					return fmt.Sprint(err), fmt.Sprint(e)
				}
			}
			return "", ""
		})
	}
	v.done()
}

// TestVerifC16Child is the program that exits, when it is run by TestVerifC16Default.
func TestVerifC16Child(t *testing.T) {
	spec := os.Getenv("VERIF_EXIT_CHILD")
	if spec == "" {
		return
	}
	var code int
	text, _, _ := strings.Cut(spec, "\x01")
	fmt.Sscan(strings.TrimPrefix(spec, text+"\x01"), &code)
	var err error = vfCoder{text, code}
	switch code {
	case 1000:
		err = nil
	case 1001:
		err = vfPlainErr(text)
	}
	app := &cli.App{Name: "app", Stderr: os.Stderr, Action: func() error { return err }}
	app.Run([]string{"app"})
	os.Exit(77)
}

// TestVerifC16Default runs programs that exit with the default handler.
func TestVerifC16Default(t *testing.T) {
	v := vfNew(t, "process", "the process ends with the status of the error and prints its message when there is one and the status is not 0")
	v.exhaustive = true
	for _, text := range []string{"", "says", "two\nlines", "50%!d"} {
		for _, code := range []int{0, 1, 2, 3, 255, 1000, 1001} {
			v.run(fmt.Sprintf("error %q with code %d", text, code), func() (string, string) {
				cmd := exec.Command(os.Args[0], "-test.run=^TestVerifC16Child$")
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_EXIT_CHILD=%s\x01%d", text, code))
				var stderr bytes.Buffer
				cmd.Stderr = &stderr
				cmd.Run()
				want := code
				switch code {
				case 1000:
					want = 77
				case 1001:
					want = 1
				}
				out := ""
				if text != "" && want != 0 && code != 1000 {
					out = text + "\n"
				}
				w, g := vfExitText(out, want), vfExitText(stderr.String(), cmd.ProcessState.ExitCode())
				if w != g {
					return w, g
				}
				return "", ""
			})
		}
	}
	v.done()
}
