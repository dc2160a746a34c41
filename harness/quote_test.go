package cli_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

// qtRead reads a text in the manner of a POSIX shell, byte by byte. bad names the first byte that has a
// meaning to the shell and stands outside quotes.
func qtRead(s string) (words []string, bad string) {
	var cur []byte
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			if in {
				words = append(words, string(cur))
			}
			cur, in = nil, false
		case c == '\'':
			in = true
			for i++; i < len(s) && s[i] != '\''; i++ {
				cur = append(cur, s[i])
			}
			if i >= len(s) {
				return words, "open single quote"
			}
		case c == '"':
			in = true
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' && i+1 < len(s) && strings.IndexByte("$`\"\\\n", s[i+1]) >= 0 {
					i++
				} else if s[i] == '$' || s[i] == '`' {
					bad = string(s[i])
				}
				cur = append(cur, s[i])
			}
			if i >= len(s) {
				return words, "open double quote"
			}
		case c == '\\':
			in = true
			i++
			if i >= len(s) {
				return words, "trailing backslash"
			}
			cur = append(cur, s[i])
		default:
			if strings.IndexByte(";&|<>()$`*?[]#~!{}^", c) >= 0 && bad == "" {
				bad = string(c)
			}
			in = true
			cur = append(cur, c)
		}
	}
	if in {
		words = append(words, string(cur))
	}
	return words, bad
}

var qtPieces = []string{"a", "Z", "0", "_", " ", "\t", "\n", "'", "\"", "\\", "$", "`", ";", "&", "|", "<", ">", "(", ")", "*", "?", "[", "]",
	"#", "~", "!", "{", "}", "^", "@", "%", "+", "=", ":", ",", ".", "/", "-", "\r", "\x00", "\x7f", "\x80", "\xff", "é", "世", "''", "'\"'\"'", "--x", "$(a)"}

func qtCheck(v *vf, s string) {
	v.run(fmt.Sprintf("Quote(%q)", s), func() (string, string) {
		q := cli.Quote(s)
		w, bad := qtRead(q)
		if bad != "" || len(w) != 1 || w[0] != s {
			return fmt.Sprintf("one word %q", s), fmt.Sprintf("%q, read as %q, unquoted %q", q, w, bad)
		}
		w2, err := cli.Split(q)
		if err != nil || len(w2) != 1 || w2[0] != s {
			return fmt.Sprintf("Split gives [%q]", s), fmt.Sprintf("%q: Split gives %q, %v", q, w2, err)
		}
		if q2 := cli.Quote(&s); q2 != q {
			return "the same for a pointer: " + q, q2
		}
		return "", ""
	})
}

func TestVerifC09Quote(t *testing.T) {
	v := vfNew(t, "Quote", "Quote(s) is read as exactly one word s by a shell and by Split, with no unquoted metacharacter")
	defer v.done()
	for b := 0; b < 256; b++ {
		qtCheck(v, string([]byte{byte(b)}))
		qtCheck(v, "a"+string([]byte{byte(b)}))
		qtCheck(v, string([]byte{byte(b)})+"a")
	}
	vfAll(qtPieces, 2, func(p []string) bool { qtCheck(v, strings.Join(p, "")); return true })
	for i := 0; i < v.n(6000, 200000) && !v.timeUp(); i++ {
		qtCheck(v, vfStr(v.r, qtPieces, 8))
	}
}

func TestVerifC09Join(t *testing.T) {
	v := vfNew(t, "Join", "splitting Join(list) gives the list back")
	defer v.done()
	check := func(l []string) {
		v.run(fmt.Sprintf("Join(%q)", l), func() (string, string) {
			keep := append([]string(nil), l...)
			j := cli.Join(l)
			w, bad := qtRead(j)
			if bad != "" || fmt.Sprintf("%q", w) != fmt.Sprintf("%q", keep) {
				return fmt.Sprintf("%q", keep), fmt.Sprintf("%q, read as %q, unquoted %q", j, w, bad)
			}
			w2, err := cli.Split(j)
			if err != nil || fmt.Sprintf("%q", w2) != fmt.Sprintf("%q", keep) {
				return fmt.Sprintf("Split gives %q", keep), fmt.Sprintf("%q, %v", w2, err)
			}
			if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", keep) {
				return fmt.Sprintf("the list is left as %q", keep), fmt.Sprintf("%q", l)
			}
			return "", ""
		})
	}
	check(nil)
	for i := 0; i < v.n(4000, 100000) && !v.timeUp(); i++ {
		l := make([]string, v.r.Intn(5))
		for k := range l {
			l[k] = vfStr(v.r, qtPieces, 4)
		}
		check(l)
	}
}

func TestVerifC09NameValue(t *testing.T) {
	v := vfNew(t, "NameValue.String", "the text of a name-value pair is the quoted form of name=value")
	defer v.done()
	for i := 0; i < v.n(3000, 60000) && !v.timeUp(); i++ {
		n, val := vfStr(v.r, qtPieces, 3), vfStr(v.r, qtPieces, 4)
		v.run(fmt.Sprintf("NameValue{%q,%q}", n, val), func() (string, string) {
			s := (&cli.NameValue{Name: n, Value: val}).String()
			w, bad := qtRead(s)
			if bad != "" || len(w) != 1 || w[0] != n+"="+val {
				return fmt.Sprintf("one word %q", n+"="+val), fmt.Sprintf("%q, read as %q, unquoted %q", s, w, bad)
			}
			return "", ""
		})
	}
}
