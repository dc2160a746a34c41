package cli_test

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

// spSplit is the rule for splitting, written over positions: cut at a separator unless a backslash
// stands before it, left to right, at most n parts, backslashes removed when there was a cut.
func spSplit(s, sep string, n int) []string {
	s = strings.TrimSpace(s)
	if s == "" || n == 0 {
		return nil
	}
	var parts []string
	rest := s
	for n < 0 || len(parts) < n-1 {
		at := -1
		for i := 0; i+len(sep) <= len(rest); i++ {
			pos := len(s) - len(rest) + i
			if strings.HasPrefix(rest[i:], sep) && (pos == 0 || s[pos-1] != '\\') {
				at = i
				break
			}
		}
		if at < 0 {
			break
		}
		parts = append(parts, rest[:at])
		rest = rest[at+len(sep):]
	}
	parts = append(parts, rest)
	if len(parts) > 1 {
		for i := range parts {
			parts[i] = strings.Join(strings.Split(parts[i], "\\"), "")
		}
	}
	return parts
}

func spMap(values []string) map[string]string {
	m := map[string]string{}
	var k, val string
	for _, kv := range values {
		p := spSplit(kv, "=", 2)
		if len(p) == 2 {
			k, val = p[0], p[1]
		} else if len(p) == 1 {
			val = val + "," + p[0]
		}
		m[k] = val
	}
	return m
}

func spShow(m map[string]string) string {
	var o []string
	for k, v := range m {
		o = append(o, fmt.Sprintf("%q:%q", k, v))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

func TestVerifC08Split(t *testing.T) {
	v := vfNew(t, "SplitList", "every text of up to 7 of the symbols a , \\ space, and random texts over separators of one to three bytes, with every part limit from -1 to 4")
	defer v.done()
	one := func(s, sep string, n int) {
		v.run(fmt.Sprintf("SplitList(%q, %q, %d)", s, sep, n), func() (string, string) {
			return fmt.Sprintf("%q", spSplit(s, sep, n)), fmt.Sprintf("%q", cli.SplitList(s, sep, n))
		})
	}
	max := 6
	if v.thorough {
		max = 8
	}
	vfAll([]string{"a", ",", "\\", " "}, max, func(p []string) bool {
		s := strings.Join(p, "")
		for n := -1; n <= 4; n++ {
			one(s, ",", n)
		}
		return !v.timeUp()
	})
	v.exhaustive = !v.timeUp()
	for i := v.n(60000, 1000000); i > 0 && !v.timeUp(); i-- {
		sep := vfPick(v.r, []string{",", "=", "::", ", ", "é", "ab", "aba", "=="})
		one(vfStr(v.r, []string{"a", "b", "\\", " ", sep, sep, "é", "\t", "\xff", "=", ":"}, 12), sep, v.r.Intn(6)-1)
	}
}

func TestVerifC08Map(t *testing.T) {
	v := vfNew(t, "key=value lists", "random texts through SplitMap, a map option and name-value options, against the list rule; formatting and parsing again gives the same map")
	defer v.done()
	pieces := []string{"a", "b", "=", "=", ",", ",", "\\", " ", "x=y", "é"}
	for i := v.n(30000, 600000); i > 0 && !v.timeUp(); i-- {
		s := vfStr(v.r, pieces, 9)
		v.run(fmt.Sprintf("SplitMap(%q)", s), func() (string, string) {
			return spShow(spMap(spSplit(s, ",", -1))), spShow(cli.SplitMap(s))
		})
		v.run(fmt.Sprintf("Set(map, %q)", s), func() (string, string) {
			m := map[string]string{"a": "0", "q": "1"}
			err := (&cli.Flag{Value: &m}).Set(s)
			w := map[string]string{"a": "0", "q": "1"}
			for k, x := range spMap(spSplit(s, ",", -1)) {
				w[k] = x
			}
			return fmt.Sprint(spShow(w), error(nil)), fmt.Sprint(spShow(m), err)
		})
		v.run(fmt.Sprintf("NameValue.Set(%q)", s), func() (string, string) {
			nv := &cli.NameValue{}
			err := nv.Set(s)
			k, x := "", "true"
			if p := spSplit(s, "=", 2); len(p) > 0 {
				k = p[0]
				if len(p) == 2 {
					x = p[1]
				}
			}
			return fmt.Sprintf("%q %q %v", k, x, error(nil)), fmt.Sprintf("%q %q %v", nv.Name, nv.Value, err)
		})
		v.run(fmt.Sprintf("NameValue.Set(k, %q)", s), func() (string, string) {
			nv := &cli.NameValue{}
			_ = nv.Set("k")
			err := nv.Set(s)
			return fmt.Sprintf("%q %q %v", "k", s, error(nil)), fmt.Sprintf("%q %q %v", nv.Name, nv.Value, err)
		})
		v.run(fmt.Sprintf("Set(name-values, %q)", s), func() (string, string) {
			l := cli.NameValues("o", "p")
			err := (&cli.Flag{Value: l}).Set(s)
			want := []string{"o=p"}
			ok := true
			for _, kv := range spSplit(s, ",", -1) {
				p := spSplit(kv, "=", 2)
				if len(p) != 2 {
					ok = false
					break
				}
				want = append(want, p[0]+"="+p[1])
			}
			if !ok {
				want = want[:1]
			}
			var got []string
			for _, n := range *l {
				got = append(got, n.Name+"="+n.Value)
			}
			return fmt.Sprintf("%q ok=%v", want, ok), fmt.Sprintf("%q ok=%v", got, err == nil)
		})
	}
}

func TestVerifC08Format(t *testing.T) {
	v := vfNew(t, "map to text and back", "the default text of a map option lists its sorted items, and read back gives the same map when nothing needs escaping")
	defer v.done()
	for i := v.n(4000, 60000); i > 0 && !v.timeUp(); i-- {
		m := map[string]string{}
		for k := v.r.Intn(5); k > 0; k-- {
			m[vfStr(v.r, []string{"a", "b", "c", "é", "-"}, 3)+"k"] = vfStr(v.r, []string{"x", "y", "=", "é", "-", "/"}, 3) + "v"
		}
		v.run(fmt.Sprintf("map %s", spShow(m)), func() (string, string) {
			var items []string
			for k, x := range m {
				items = append(items, k+"="+x)
			}
			sort.Strings(items)
			text := strings.Join(items, ",")
			got := map[string]string{}
			app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "m", Value: &got}}, Stdout: io.Discard, Stderr: io.Discard}
			err := app.RunContext(context.Background(), []string{"app", "--m=" + text})
			if text == "" {
				err = nil
			}
			return fmt.Sprintf("%s %q %v", spShow(m), text, error(nil)), fmt.Sprintf("%s %q %v", spShow(got), spJoinMap(m), err)
		})
	}
}

// spJoinMap obtains the text that usage displays for a map
func spJoinMap(m map[string]string) string {
	return cli.Quote(&m)
}
