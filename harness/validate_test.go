package cli_test

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type vfOpt struct {
	name     string
	kind     int // 0 text, 1 list, 2 switch
	required bool
	enum     []string
	mutex    []string
	hidden   bool
	given    []string // its texts
	seen     int
	form     int
}

// vfValidateWant gives the names of the options that make the run fail, in order, and why.
func vfValidateWant(opts []*vfOpt) (fails []string) {
	seen := map[string]bool{}
	for _, o := range opts {
		seen[o.name] = o.seen > 0
	}
	for _, o := range opts {
		if o.required && o.seen == 0 {
			fails = append(fails, o.name)
		}
		for _, g := range o.given {
			if o.enum != nil && !vfIn(o.enum, g) {
				fails = append(fails, o.name)
				break
			}
		}
		if o.seen > 0 {
			for _, m := range o.mutex {
				if seen[m] {
					fails = append(fails, o.name)
					break
				}
			}
		}
	}
	return
}

func vfIn(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// TestVerifC17Validators declares options with random validators on a command, gives some of them and compares the outcome.
func TestVerifC17Validators(t *testing.T) {
	v := vfNew(t, "run", "a run fails exactly when a required option was not given, a value is not of the enumeration, or two exclusive options were given; the error names the option and no later action runs")
	names := []string{"alpha", "b", "gamma", "delta"}
	values := []string{"red", "blue", "%d", "x y", "RED", "r", "", "red,blue", "100%", "%[2]s", "a=b"}
	n := v.n(4000, 60000)
	for i := 0; i < n && !v.timeUp(); i++ {
		nopt := 1 + v.r.Intn(len(names))
		nested := v.r.Intn(3) == 0
		opts := make([]*vfOpt, nopt)
		for k := range opts {
			o := &vfOpt{name: names[k], kind: v.r.Intn(3), required: v.r.Intn(4) == 0, form: v.r.Intn(2), hidden: v.r.Intn(6) == 0}
			if o.kind != 2 && v.r.Intn(3) == 0 {
				o.enum = []string{}
				for c := v.r.Intn(5); c > 0; c-- {
					o.enum = append(o.enum, vfPick(v.r, values))
				}
			}
			if v.r.Intn(4) == 0 {
				for _, m := range names[:nopt] {
					if m != o.name && v.r.Intn(2) == 0 {
						o.mutex = append(o.mutex, m)
					}
				}
			}
			if v.r.Intn(3) > 0 {
				o.seen = 1
				if v.r.Intn(4) == 0 {
					o.seen = 2
				}
			}
			opts[k] = o
		}
		var line []string
		for _, o := range opts {
			for c := 0; c < o.seen; c++ {
				if o.kind == 2 {
					line = append(line, vfDash(o.name))
					continue
				}
				val := vfPick(v.r, values)
				if o.enum != nil && len(o.enum) > 0 && v.r.Intn(3) > 0 {
					val = vfPick(v.r, o.enum)
				}
				o.given = append(o.given, val)
				if len(o.name) == 1 || (o.form == 0 && val != "") {
					line = append(line, vfDash(o.name), val)
				} else {
					line = append(line, vfDash(o.name)+"="+val)
				}
			}
		}
		var desc strings.Builder
		for _, o := range opts {
			fmt.Fprintf(&desc, "%s(kind=%d required=%v enum=%q mutex=%q hidden=%v) ", o.name, o.kind, o.required, o.enum, o.mutex, o.hidden)
		}
		v.run(fmt.Sprintf("options %snested=%v line=%q", desc.String(), nested, line), func() (string, string) {
			ran := false
			var flags []*cli.Flag
			for _, o := range opts {
				f := &cli.Flag{Name: o.name}
				switch o.kind {
				case 0:
					f.Value = cli.String()
				case 1:
					f.Value = cli.List()
					f.Options = cli.DisableSplitting
				case 2:
					f.Value = cli.Bool()
				}
				if o.required {
					f.Options |= cli.Required
				}
				if o.hidden {
					f.Options |= cli.Hidden
				}
				var uses []cli.Action
				if o.enum != nil {
					uses = append(uses, cli.Enum(o.enum...))
				}
				if o.mutex != nil {
					uses = append(uses, cli.Mutex(o.mutex...))
				}
				f.Uses = cli.ActionPipeline(uses)
				flags = append(flags, f)
			}
			cmd := &cli.Command{Name: "sub", Flags: flags, Action: func() { ran = true }}
			app := &cli.App{Name: "app", Flags: flags, Action: cmd.Action}
			args := append([]string{"app"}, line...)
			if nested {
				app = &cli.App{Name: "app", Commands: []*cli.Command{cmd}}
				args = append([]string{"app", "sub"}, line...)
			}
			app.Stderr, app.Stdout = &strings.Builder{}, &strings.Builder{}
			err := app.RunContext(context.Background(), args)
			fails := vfValidateWant(opts)
			if len(fails) == 0 {
				if err != nil || !ran {
					return "the run succeeds and its action runs", fmt.Sprintf("ran=%v, error %v", ran, err)
				}
				return "", ""
			}
			if err == nil || ran {
				return fmt.Sprintf("the run fails because of one of %q, without running its action", fails), fmt.Sprintf("ran=%v, error %v", ran, err)
			}
			named := false
			for _, f := range fails {
				named = named || strings.Contains(err.Error(), vfDash(f))
			}
			if !named || strings.Contains(err.Error(), "%!") {
				return fmt.Sprintf("an error naming one of %q", fails), err.Error()
			}
			return "", ""
		})
	}
	v.done()
}

func vfDash(name string) string {
	if len(name) == 1 {
		return "-" + name
	}
	return "--" + name
}

// TestVerifC17Args does the same for args and for every rejected text being reported as it was given.
func TestVerifC17Args(t *testing.T) {
	v := vfNew(t, "arg", "a required arg that is missing fails the run, an enumerated arg accepts exactly the listed texts, a rejected text is reported as it was given, and validators see all texts given")
	values := []string{"red", "blue", "%d", "x y", "RED", "r", "%", "%%", "%[2]s", "`", "'q'", "red,blue"}
	n := v.n(3000, 40000)
	for i := 0; i < n && !v.timeUp(); i++ {
		required, many := v.r.Intn(2) == 0, v.r.Intn(2) == 0
		var enum, given []string
		for c := v.r.Intn(6); c > 0; c-- {
			enum = append(enum, vfPick(v.r, values))
		}
		for c := v.r.Intn(4); c > 0; c-- {
			if len(enum) > 0 && v.r.Intn(3) > 0 {
				given = append(given, vfPick(v.r, enum))
			} else {
				given = append(given, vfPick(v.r, values))
			}
		}
		if !many && len(given) > 1 {
			given = given[:1]
		}
		v.run(fmt.Sprintf("arg required=%v many=%v enum=%q given=%q", required, many, enum, given), func() (string, string) {
			ran := false
			var saw [][]string
			arg := &cli.Arg{Name: "what", Value: cli.String(), NArg: 1}
			if many {
				arg.Value, arg.NArg = cli.List(), cli.TakeUntilNextFlag
				arg.Options = cli.DisableSplitting
			}
			if !required {
				if !many {
					arg.NArg = cli.OptionalArg(func(string) bool { return true })
				}
			} else {
				arg.Options |= cli.Required
			}
			arg.Uses = cli.Pipeline(cli.ValidatorFunc(func(raw []string) error {
				saw = append(saw, append([]string{}, raw...))
				return nil
			}), cli.Enum(enum...))
			app := &cli.App{Name: "app", Args: []*cli.Arg{arg}, Action: func() { ran = true }}
			app.Stderr, app.Stdout = &strings.Builder{}, &strings.Builder{}
			err := app.RunContext(context.Background(), append([]string{"app"}, given...))
			bad := ""
			isBad := false
			for _, g := range given {
				if !vfIn(enum, g) {
					bad, isBad = g, true
					break
				}
			}
			missing := required && len(given) == 0
			switch {
			case !missing && !isBad:
				if err != nil || !ran {
					return "the run succeeds and its action runs", fmt.Sprintf("ran=%v, error %v", ran, err)
				}
				if len(given) > 0 && (len(saw) != 1 || fmt.Sprintf("%q", saw[0]) != fmt.Sprintf("%q", given)) {
					return fmt.Sprintf("the validator sees %q once", given), fmt.Sprintf("it sees %q", saw)
				}
			case err == nil || ran:
				return "the run fails without running its action", fmt.Sprintf("ran=%v, error %v", ran, err)
			case (many || isBad) && !strings.Contains(err.Error(), "what"):
				return "an error naming the arg", err.Error()
			case isBad && !strings.Contains(err.Error(), fmt.Sprintf("%q", bad)):
				return fmt.Sprintf("an error with the rejected text %q", bad), err.Error()
			}
			return "", ""
		})
	}
	v.done()
}
