package cli_test

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type ocSelf struct {
	got    []string
	resets int
	plain  bool
}

func (s *ocSelf) Set(a string) error { s.got = append(s.got, a); return nil }
func (s *ocSelf) String() string     { return strings.Join(s.got, "|") }
func (s *ocSelf) Reset()             { s.resets++; s.got = nil }
func (s *ocSelf) DisableSplitting()  { s.plain = true }

func ocShow(p any) string {
	switch x := p.(type) {
	case *string:
		return fmt.Sprintf("%q", *x)
	case string:
		return fmt.Sprintf("%q", x)
	case *[]string:
		return fmt.Sprintf("%q", append([]string{}, *x...))
	case []string:
		return fmt.Sprintf("%q", append([]string{}, x...))
	case *[]*cli.NameValue:
		return ocShow(*x)
	case []*cli.NameValue:
		var o []string
		for _, n := range x {
			o = append(o, n.Name+"="+n.Value)
		}
		return fmt.Sprintf("%q", o)
	case *map[string]string:
		return ocShow(*x)
	case map[string]string:
		var o []string
		for k, v := range x {
			o = append(o, fmt.Sprintf("%q:%q", k, v))
		}
		sort.Strings(o)
		return "{" + strings.Join(o, " ") + "}"
	case *ocSelf:
		return fmt.Sprintf("%q plain=%v", x.got, x.plain)
	case *int:
		return fmt.Sprint(*x)
	case *bool:
		return fmt.Sprint(*x)
	}
	return fmt.Sprint(p)
}

// one option whose history is followed by a model of what it should hold
type ocOpt struct {
	kind  int
	init  bool
	merge bool
	plain bool
	arg   bool // positional argument taking everything
}

func (o ocOpt) String() string {
	return fmt.Sprintf("kind=%s init=%v merge=%v plain=%v arg=%v", []string{"string", "list", "map", "pairs", "int", "bool", "self"}[o.kind], o.init, o.merge, o.plain, o.arg)
}

func (o ocOpt) dest() any {
	switch o.kind {
	case 0:
		s := ""
		if o.init {
			s = "init"
		}
		return &s
	case 1:
		var l []string
		if o.init {
			l = []string{"i0", "i1"}
		}
		return &l
	case 2:
		var m map[string]string
		if o.init {
			m = map[string]string{"k": "i", "z": "i"}
		}
		return &m
	case 3:
		if o.init {
			return cli.NameValues("i", "0")
		}
		return cli.NameValues()
	case 4:
		i := 0
		if o.init {
			i = 99
		}
		return &i
	case 5:
		b := o.init
		return &b
	}
	s := &ocSelf{}
	if o.init {
		s.got = []string{"init"}
	}
	return s
}

// text for one value of the option, and what it contributes
var ocTexts = [][]string{
	{"x", "y", "a,b", " s "},
	{"x", "y,z", "p,q,r"},
	{"k=v", "a=1,b=2", "k=w,z=9"},
	{"k=v", "a=1,b=2", "k=w,z=9"},
	{"1", "2", "30"},
	{"true", "false", "on"},
	{"x", "y,z"},
}

// ocModel applies occurrences (each a list of texts) to the initial content.
func (o ocOpt) model(occ [][]string) string {
	split := func(s string) []string {
		if o.plain {
			return []string{s}
		}
		return strings.Split(s, ",")
	}
	switch o.kind {
	case 0:
		cur := ""
		if o.init {
			cur = "init"
		}
		for i, vs := range occ {
			if !o.merge && !(o.arg && i > 0) { // the values of a string argument are joined
				cur = ""
			}
			for _, v := range vs {
				if cur != "" {
					cur += " "
				}
				cur += v
			}
		}
		return fmt.Sprintf("%q", cur)
	case 1:
		l := []string{}
		if o.init {
			l = []string{"i0", "i1"}
		}
		for i, vs := range occ {
			if i == 0 && !o.merge {
				l = []string{}
			}
			for _, v := range vs {
				l = append(l, split(v)...)
			}
		}
		return fmt.Sprintf("%q", l)
	case 2:
		m := map[string]string{}
		if o.init {
			m = map[string]string{"k": "i", "z": "i"}
		}
		for i, vs := range occ {
			if i == 0 && !o.merge {
				m = map[string]string{}
			}
			for _, v := range vs {
				for _, kv := range split(v) {
					k, x, _ := strings.Cut(kv, "=")
					m[k] = x
				}
			}
		}
		return ocShow(m)
	case 3:
		l := []*cli.NameValue{}
		if o.init {
			l = *cli.NameValues("i", "0")
		}
		for i, vs := range occ {
			if i == 0 && !o.merge {
				l = nil
			}
			for _, v := range vs {
				for _, kv := range split(v) {
					k, x, _ := strings.Cut(kv, "=")
					l = append(l, &cli.NameValue{Name: k, Value: x})
				}
			}
		}
		return ocShow(l)
	case 4, 5:
		cur := ocShow(o.dest())
		for _, vs := range occ {
			for _, v := range vs {
				cur = strings.Replace(v, "on", "true", 1)
			}
		}
		return cur
	}
	var got []string
	if o.init {
		got = []string{"init"}
	}
	for _, vs := range occ {
		if !o.merge {
			got = nil
		}
		got = append(got, vs...)
	}
	return fmt.Sprintf("%q plain=%v", got, o.plain && len(occ) > 0)
}

func (o ocOpt) options() (res cli.Option) {
	if o.merge {
		res |= cli.Merge
	}
	if o.plain {
		res |= cli.DisableSplitting
	}
	return
}

func TestVerifC07Options(t *testing.T) {
	v := vfNew(t, "options over several occurrences", "value kind x initial content x Merge x DisableSplitting x flag or arg x sequences of occurrences: final value, occurrence count and Seen equal the model of resets and merges")
	defer v.done()
	one := func(opts []ocOpt, order []int, occ [][][]string) {
		in := fmt.Sprintf("%v order=%v occ=%q", opts, order, occ)
		v.run(in, func() (string, string) {
			dests := make([]any, len(opts))
			app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
			for i, o := range opts {
				dests[i] = o.dest()
				if o.arg {
					app.Args = append(app.Args, &cli.Arg{Name: fmt.Sprintf("a%d", i), Value: dests[i], NArg: cli.TakeUntilNextFlag, Options: o.options()})
				} else {
					app.Flags = append(app.Flags, &cli.Flag{Name: fmt.Sprintf("f%d", i), Aliases: []string{fmt.Sprintf("al%d", i)}, Value: dests[i], Options: o.options()})
				}
			}
			line := []string{"app"}
			next := make([]int, len(opts))
			for _, i := range order {
				vs := occ[i][next[i]]
				next[i]++
				if opts[i].arg {
					line = append(line, vs...)
				} else {
					nm := "--f"
					if next[i]%2 == 0 {
						nm = "--al"
					}
					line = append(line, fmt.Sprintf("%s%d=%s", nm, i, vs[0]))
				}
			}
			var got []string
			app.Action = func(c *cli.Context) {
				for i, o := range opts {
					nm := fmt.Sprintf("f%d", i)
					if o.arg {
						nm = fmt.Sprintf("a%d", i)
					}
					got = append(got, fmt.Sprintf("%s %s n=%d seen=%v", nm, ocShow(c.Value(nm)), c.Occurrences(nm), c.Seen(nm)))
				}
			}
			err := app.RunContext(context.Background(), line)
			var want []string
			for i, o := range opts {
				nm := fmt.Sprintf("f%d", i)
				if o.arg {
					nm = fmt.Sprintf("a%d", i)
				}
				k := len(occ[i])
				want = append(want, fmt.Sprintf("%s %s n=%d seen=%v", nm, o.model(occ[i]), k, k > 0))
			}
			return fmt.Sprint(want, error(nil)), fmt.Sprint(got, err)
		})
	}
	gen := func(o ocOpt, n int) (res [][]string) {
		for k := 0; k < n; k++ {
			res = append(res, []string{vfPick(v.r, ocTexts[o.kind])})
		}
		return
	}
	// every configuration with 0..3 occurrences
	for kind := 0; kind < 7; kind++ {
		for bits := 0; bits < 16; bits++ {
			o := ocOpt{kind, bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0}
			if o.plain && (kind == 2 || kind == 3) {
				continue
			}
			for n := 0; n <= 3; n++ {
				oc := gen(o, n)
				one([]ocOpt{o}, make([]int, len(oc)), [][][]string{oc})
			}
		}
	}
	for _, n := range []int{127, 128, 255, 256, 257, 300, 513, 1025} { // long histories
		for kind := 0; kind < 7; kind++ {
			o := ocOpt{kind, true, n%2 == 0, false, false}
			oc := gen(o, n)
			one([]ocOpt{o}, make([]int, len(oc)), [][][]string{oc})
		}
	}
	for i := v.n(6000, 200000); i > 0 && !v.timeUp(); i-- {
		var opts []ocOpt
		var occ [][][]string
		var order []int
		for k := 1 + v.r.Intn(3); k > 0; k-- {
			o := ocOpt{v.r.Intn(7), v.r.Intn(2) == 0, v.r.Intn(2) == 0, v.r.Intn(2) == 0, false}
			if o.kind == 2 || o.kind == 3 {
				o.plain = false
			}
			oc := gen(o, v.r.Intn(4))
			for range oc {
				order = append(order, len(opts))
			}
			opts = append(opts, o)
			occ = append(occ, oc)
		}
		v.r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		one(opts, order, occ)
	}
}

func TestVerifC07Again(t *testing.T) {
	v := vfNew(t, "options of several runs and each-occurrence actions", "the number of occurrences and what each sees stay exact when the action runs once per occurrence")
	defer v.done()
	for i := v.n(3000, 60000); i > 0 && !v.timeUp(); i-- {
		o := ocOpt{[]int{0, 1, 4}[v.r.Intn(3)], v.r.Intn(2) == 0, v.r.Intn(2) == 0, v.r.Intn(2) == 0, false}
		n := v.r.Intn(4)
		var texts []string
		for k := 0; k < n; k++ {
			texts = append(texts, vfPick(v.r, ocTexts[o.kind]))
		}
		v.run(fmt.Sprintf("each occurrence %v %q", o, texts), func() (string, string) {
			var got, want []string
			app := &cli.App{Name: "app", Flags: []*cli.Flag{{
				Name: "f", Value: o.dest(), Options: o.options() | cli.EachOccurrence,
				Action: func(c *cli.Context) {
					got = append(got, fmt.Sprintf("%s n=%d", ocShow(c.Value("")), c.Occurrences("")))
				},
			}}, Action: func(c *cli.Context) {
				got = append(got, fmt.Sprintf("after n=%d seen=%v", c.Occurrences("f"), c.Seen("f")))
			}}
			line := []string{"app"}
			for _, x := range texts {
				line = append(line, "--f="+x)
			}
			err := app.RunContext(context.Background(), line)
			e := o
			e.init = false // every occurrence starts from the zero value
			for k := range texts {
				var occ [][]string
				from := k
				if o.merge && o.kind != 4 {
					from = 0
				}
				for _, x := range texts[from : k+1] {
					occ = append(occ, []string{x})
				}
				want = append(want, fmt.Sprintf("%s n=%d", e.model(occ), n))
			}
			want = append(want, fmt.Sprintf("after n=%d seen=%v", n, n > 0))
			return fmt.Sprint(want, error(nil)), fmt.Sprint(got, err)
		})
	}
}
