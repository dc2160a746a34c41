package cli_test

import (
	"fmt"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

func TestVerifC03Counters(t *testing.T) {
	v := vfNew(t, "ArgCounter.Take/Done sequences", "every counter kind x random token sequences with and without flag recognition: accept/stop/flag verdict of each Take and the outcome of Done equal the reference counters; ends at the first refusal")
	defer v.done()
	pmInit()
	kinds := []string{"n", "opt", "req", "var", "until", "except", "pred", "pair"}
	one := func(k string, n int, toks []string, pf bool) {
		o := pmOpt{kind: k, n: n}
		v.run(fmt.Sprintf("%s%d %q possibleFlag=%v", k, n, toks, pf), func() (string, string) {
			ref, real := o.counter(), o.real()
			e, g := "", ""
			for _, tok := range toks {
				want := ref.take(tok, pf)
				err := real.Take(tok, pf)
				got := "flag"
				if err == nil {
					got = "ok"
				} else if err == cli.EndOfArguments {
					got = "end"
				}
				e += want + " "
				g += got + " "
				if want == "end" || got != want {
					break
				}
			}
			derr := real.Done()
			e += fmt.Sprint("done:", ref.doneOK())
			g += fmt.Sprint("done:", derr == nil)
			if derr != nil {
				p, ok := derr.(*cli.ParseError)
				e += " expected argument"
				if ok {
					g += " " + p.Code.String()
				} else {
					g += fmt.Sprintf(" %T", derr)
				}
			}
			return e, g
		})
	}
	toks := []string{"", "-", "--", "-a", "--b=c", "x", "v", "k=v", "=v", "k\\=v"}
	for _, k := range kinds {
		for n := 0; n <= 4; n++ {
			if n > 0 && k != "n" {
				continue
			}
			for _, pf := range []bool{false, true} {
				vfAll(toks, v.n(3, 4), func(s []string) bool { one(k, n, s, pf); return v.fails < 5 })
			}
		}
	}
	for i := v.n(3000, 200000); i > 0 && !v.timeUp(); i-- {
		n := v.r.Intn(12)
		s := make([]string, v.r.Intn(14))
		for j := range s {
			s[j] = vfPick(v.r, pmTokens)
		}
		one(vfPick(v.r, kinds), n, s, v.r.Intn(2) == 0)
	}
	for _, n := range []int{-4, -5, -100, 0, -1, -2, -3} {
		v.run(fmt.Sprint("ArgCount ", n), func() (string, string) {
			k := map[int]string{0: "opt", -2: "until", -3: "except"}[n]
			if k == "" {
				k = "var"
			}
			ref, real := (&pmCounter{kind: k}), cli.ArgCount(n)
			e, g := "", ""
			for _, tok := range []string{"a", "-", "b", "-f"} {
				e += ref.take(tok, true) + " "
				err := real.Take(tok, true)
				switch err {
				case nil:
					g += "ok "
				case cli.EndOfArguments:
					g += "end "
				default:
					g += "flag "
				}
			}
			return e, g
		})
	}
}
