from s1 import demo
SEEDS = [
 dict(id="C09-tilde", prop="C09", file="cli.go",
  old="`[^\\w@%+=:,./-]`", new="`[^\\w@%+=:,./~-]`",
  needs="a text with a tilde and no other special character",
  breaks="a leading tilde is left unquoted and the shell expands it",
  demo=demo('''
	for _, s := range []string{"~", "~root/x"} {
		if q := cli.Quote(s); q != "'" + s + "'" && q != "\\"" + s + "\\"" && !strings.Contains(q, "\\\\") { fail("%q is %s", s, q) }
	}
''', ["strings"])),
 dict(id="C09-three-quotes", prop="C09", file="cli.go",
  old="strings.ReplaceAll(s, \"'\", \"'\\\"'\\\"'\")", new="strings.Replace(s, \"'\", \"'\\\"'\\\"'\", 3)",
  needs="a text with four or more single quotes",
  breaks="the fourth single quote of a text ends the quoting",
  demo=demo('''
	s := "a'b'c'd'e f"
	w, err := cli.Split(cli.Quote(s))
	if err != nil || len(w) != 1 || w[0] != s { fail("%q %v", w, err) }
''')),
]
