package cli_test

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

type bmState struct {
	name string
	log  *[]string
	fail int
}

func (s *bmState) SetOccurrenceData(d any) error { return s.add("data " + fmt.Sprint(d)) }
func (s *bmState) SetOccurrence(vals ...string) error {
	return s.add(fmt.Sprintf("%q", vals))
}
func (s *bmState) add(x string) error {
	*s.log = append(*s.log, s.name+" "+x)
	if s.fail > 0 {
		s.fail--
		if s.fail == 0 {
			return errors.New("no " + s.name)
		}
	}
	return nil
}

type bmBinding struct {
	m  map[string]*bmState
	tr map[string]cli.TransformFunc
}

func (b bmBinding) LookupOption(n string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	s, ok := b.m[n]
	if !ok {
		return nil, nil, nil, false
	}
	return b.tr[n], cli.NoArgs(), s, true
}
func (b bmBinding) ResolveAlias(n string) (string, bool) { _, ok := b.m[n]; return n, ok }
func (b bmBinding) PositionalArgNames() []string         { return nil }
func (b bmBinding) BehaviorFlags(string) bool            { return false }
func (b bmBinding) Reset()                               {}

func bmRandom(v *vf) cli.BindingMap {
	m := cli.BindingMap{}
	for _, n := range []string{"", "a", "b", "<c>", "long-name"} {
		if v.r.Intn(3) == 0 {
			continue
		}
		for k := v.r.Intn(4); k > 0; k-- {
			occ := []string{vfPick(v.r, []string{"-a", "--b", "<c>", ""})}
			for j := v.r.Intn(4); j > 0; j-- {
				occ = append(occ, vfPick(v.r, []string{"", "x", "y", "-z", "--"}))
			}
			m[n] = append(m[n], occ)
		}
		if m[n] == nil && v.r.Intn(2) == 0 {
			m[n] = [][]string{}
		}
	}
	return m
}

func TestVerifC05(t *testing.T) {
	v := vfNew(t, "BindingMap queries and replay", "random binding maps: Raw, RawOccurrences, Bindings, BindingNames equal the flattening of the occurrences; ApplyTo sets each named option once per occurrence, in order, up to the first error")
	defer v.done()
	for i := v.n(40000, 600000); i > 0 && !v.timeUp(); i-- {
		m := bmRandom(v)
		v.run(pmShow(m), func() (string, string) {
			var wn []string
			for n := range m {
				if n != "" {
					wn = append(wn, n)
				}
			}
			gn := m.BindingNames()
			sort.Strings(wn)
			gs := append([]string(nil), gn...)
			sort.Strings(gs)
			e, g := fmt.Sprintf("names%q ", wn), fmt.Sprintf("names%q ", gs)
			for _, n := range []string{"", "a", "b", "<c>", "long-name", "absent"} {
				raw, occ := []string{}, []string{}
				for _, o := range m[n] {
					raw = append(raw, o...)
					occ = append(occ, o[1:]...)
				}
				e += fmt.Sprintf("%q:%q %q %q;", n, raw, occ, m[n])
				g += fmt.Sprintf("%q:%q %q %q;", n, m.Raw(n), m.RawOccurrences(n), m.Bindings(n))
			}
			before := pmShow(m)
			r := m.Raw("a")
			for i := range r {
				r[i] = "scribbled"
			}
			r = m.RawOccurrences("b")
			for i := range r {
				r[i] = "scribbled"
			}
			if pmShow(m) != before {
				g += "query result shares storage"
			}
			// replay
			var log []string
			b := bmBinding{m: map[string]*bmState{}, tr: map[string]cli.TransformFunc{}}
			failing := false
			for _, n := range []string{"a", "b", "<c>"} {
				s := &bmState{name: n, log: &log}
				if v.r.Intn(4) == 0 {
					s.fail = 1 + v.r.Intn(3)
					if s.fail <= len(m[n]) {
						failing = true
					}
				}
				b.m[n] = s
				if v.r.Intn(4) == 0 {
					b.tr[n] = func(x []string) (any, error) { return strings.Join(x, "+"), nil }
				}
			}
			fails := map[string]int{}
			for n, s := range b.m {
				fails[n] = s.fail
			}
			err := m.ApplyTo(b)
			if failing != (err != nil) {
				return fmt.Sprint("replay fails: ", failing), fmt.Sprint("replay fails: ", err != nil)
			}
			got := map[string][]string{}
			for _, l := range log {
				n, rest, _ := strings.Cut(l, " ")
				got[n] = append(got[n], rest)
			}
			for n := range b.m {
				var want []string
				for k, o := range m[n] {
					if b.tr[n] != nil {
						want = append(want, "data "+strings.Join(o, "+"))
					} else {
						want = append(want, fmt.Sprintf("%q", o[1:]))
					}
					if k+1 == fails[n] {
						break
					}
				}
				if err == nil && !reflect.DeepEqual(want, got[n]) {
					e += fmt.Sprintf(" replay %s=%q", n, want)
					g += fmt.Sprintf(" replay %s=%q", n, got[n])
				}
				if err != nil && !(len(got[n]) == 0 || reflect.DeepEqual(want, got[n])) {
					e += fmt.Sprintf(" replay with error %s=%q or nothing", n, want)
					g += fmt.Sprintf(" replay %s=%q", n, got[n])
				}
			}
			if err != nil {
				last := ""
				if len(log) > 0 {
					last, _, _ = strings.Cut(log[len(log)-1], " ")
				}
				e += " stops at the failing option: no " + last
				g += " stops at the failing option: " + err.Error()
			}
			return e, g
		})
	}
}
