package main

import (
	"fmt"
	"regexp/syntax"
	"strings"
)

// smtRegexp translates a Go regular expression into the SMT regular language of the texts in which it
// finds a match. A class that contains only some of the non-ASCII runes, and word boundaries, are not
// translated. A class that contains all of them matches any byte from 0x80, which is exact where the
// expression asks for one such class anywhere in the text, or for any number of them.
func smtRegexp(pat string) (string, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return "", err
	}
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	pre, post := "re.all", "re.all"
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		pre, subs = "", subs[1:]
	}
	if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		post, subs = "", subs[:len(subs)-1]
	}
	var parts []string
	if pre != "" {
		parts = append(parts, pre)
	}
	for _, s := range subs {
		r, err := smtRe(s)
		if err != nil {
			return "", err
		}
		parts = append(parts, r)
	}
	if post != "" {
		parts = append(parts, post)
	}
	return reCat(parts), nil
}

func reCat(p []string) string {
	switch len(p) {
	case 0:
		return "(str.to_re \"\")"
	case 1:
		return p[0]
	}
	return "(re.++ " + strings.Join(p, " ") + ")"
}

func smtRe(r *syntax.Regexp) (string, error) {
	bad := func() (string, error) { return "", fmt.Errorf("regular expression %v is not translated", r) }
	many := func(f string) (string, error) {
		x, err := smtRe(r.Sub[0])
		return "(" + f + " " + x + ")", err
	}
	switch r.Op {
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase != 0 {
			return bad()
		}
		return "(str.to_re " + smtStr(string(r.Rune)) + ")", nil
	case syntax.OpCharClass:
		var p []string
		for i := 0; i < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if lo >= 0x80 && !(lo == 0x80 && hi == 0x10FFFF) || lo < 0x80 && hi >= 0x80 && hi != 0x10FFFF {
				return bad()
			}
			if hi > 0xFF {
				hi = 0x2FFFF // all characters of the theory: a Go string has only bytes
			}
			p = append(p, fmt.Sprintf("(re.range \"\\u{%x}\" \"\\u{%x}\")", lo, hi))
		}
		if len(p) == 1 {
			return p[0], nil
		}
		return "(re.union " + strings.Join(p, " ") + ")", nil
	case syntax.OpAnyCharNotNL:
		return "(re.diff re.allchar (str.to_re \"\\u{a}\"))", nil
	case syntax.OpAnyChar:
		return "re.allchar", nil
	case syntax.OpCapture:
		return smtRe(r.Sub[0])
	case syntax.OpStar:
		return many("re.*")
	case syntax.OpPlus:
		return many("re.+")
	case syntax.OpQuest:
		return many("re.opt")
	case syntax.OpEmptyMatch:
		return "(str.to_re \"\")", nil
	case syntax.OpConcat, syntax.OpAlternate:
		var p []string
		for _, s := range r.Sub {
			x, err := smtRe(s)
			if err != nil {
				return "", err
			}
			p = append(p, x)
		}
		if r.Op == syntax.OpConcat {
			return reCat(p), nil
		}
		return "(re.union " + strings.Join(p, " ") + ")", nil
	}
	return bad()
}
