// ---- C09: quoting for the shell ----------------------------------------------------------------------
pkg .

// What a POSIX shell reads: one word from the front of a text. In raw mode (R) quotes and backslashes
// start other modes, a blank ends the word, and any other special character is not quoted (not ok).
// w?: the text of the rest of the word, k?: what follows the word, o?: the word is complete and every special
// character in it is quoted. step(c, t) tells what reading the byte c before the text t means in each mode.
smtfun wR(string) string
smtfun kR(string) string
smtfun oR(string) bool
smtfun wS(string) string
smtfun kS(string) string
smtfun oS(string) bool
smtfun wD(string) string
smtfun kD(string) string
smtfun oD(string) bool
smtfun step(string, string) bool
define blank(c string) bool = c == " " || c == "\t" || c == "\n"
define special(c string) bool = contains(";&|<>()$`*?[]#~!{}^", c)
axiom [use:sh] wR("") == "" && kR("") == "" && oR("") && !oS("") && !oD("") && replaceall("", "'", "'\"'\"'") == ""
axiom [use:sh] forall c string, t string :: trigger(len(c) == 1 && c != "\\" ==> \
  (if c == "'" :: wR(concat(c, t)) == wS(t) && kR(concat(c, t)) == kS(t) && (oR(concat(c, t)) <==> oS(t)) \
  else (if c == "\"" :: wR(concat(c, t)) == wD(t) && kR(concat(c, t)) == kD(t) && (oR(concat(c, t)) <==> oD(t)) \
  else (if blank(c) :: wR(concat(c, t)) == "" && kR(concat(c, t)) == t && oR(concat(c, t)) \
  else wR(concat(c, t)) == concat(c, wR(t)) && kR(concat(c, t)) == kR(t) && (oR(concat(c, t)) <==> oR(t) && !special(c))))), step(c, t))
axiom [use:sh] forall c string, t string :: trigger(len(c) == 1 ==> \
  (if c == "'" :: wS(concat(c, t)) == wR(t) && kS(concat(c, t)) == kR(t) && (oS(concat(c, t)) <==> oR(t)) \
  else wS(concat(c, t)) == concat(c, wS(t)) && kS(concat(c, t)) == kS(t) && (oS(concat(c, t)) <==> oS(t))), step(c, t))
axiom [use:sh] forall c string, t string :: trigger(len(c) == 1 && c != "\\" ==> \
  (if c == "\"" :: wD(concat(c, t)) == wR(t) && kD(concat(c, t)) == kR(t) && (oD(concat(c, t)) <==> oR(t)) \
  else wD(concat(c, t)) == concat(c, wD(t)) && kD(concat(c, t)) == kD(t) && (oD(concat(c, t)) <==> oD(t) && c != "$" && c != "`")), step(c, t))

// the documented meaning of replacing every occurrence of a one-byte text
smtfun inq(string, string) bool
smtfun plain(string, string) bool
smtfun quo(string) bool
smtfun fw(string, string) bool
axiom [use:sh] forall c string, t string :: trigger(len(c) == 1 ==> replaceall(concat(c, t), "'", "'\"'\"'") == concat((if c == "'" :: "'\"'\"'" else c), replaceall(t, "'", "'\"'\"'")), step(c, t))

// the quoted form of a text
define plainText(s string) bool = inre(s, "^[0-9A-Za-z_@%+=:,./-]+$")
define inQuotes(s string) string = replaceall(s, "'", "'\"'\"'")
smtfun quoted(string) string
axiom [use:quoted] forall s string :: trigger(quoted(s) == (if s == "" :: "''" else (if plainText(s) :: s else concat("'", inQuotes(s), "'"))), quoted(s))
axiom [use:quotedg] forall s string :: trigger(quoted(s) == (if s == "" :: "''" else (if plainText(s) :: s else concat("'", inQuotes(s), "'"))), quo(s))

lemma [C09] [use:q1] [with:sh] [induct:s] \
  [hint:step(head, rest),step("'", t),step(head, concat(inQuotes(rest), "'", t)),step("'", concat("\"'\"'", inQuotes(rest), "'", t)),step("\"", concat("'\"'", inQuotes(rest), "'", t)),step("'", concat("\"'", inQuotes(rest), "'", t)),step("\"", concat("'", inQuotes(rest), "'", t)),step("'", concat(inQuotes(rest), "'", t))] \
  within quotes: forall s string, t string :: trigger( \
  wS(concat(inQuotes(s), "'", t)) == concat(s, wR(t)) && kS(concat(inQuotes(s), "'", t)) == kR(t) && (oS(concat(inQuotes(s), "'", t)) <==> oR(t)), inq(s, t))

lemma [C09] [use:q2] [with:sh] [induct:s] \
  [hint:step(head, concat(rest, t))] \
  plain text: forall s string, t string :: trigger(inre(s, "^[0-9A-Za-z_@%+=:,./-]*$") ==> \
  wR(concat(s, t)) == concat(s, wR(t)) && kR(concat(s, t)) == kR(t) && (oR(concat(s, t)) <==> oR(t)), plain(s, t))

// a quoted text, alone or before a blank, is read as one word: that text
lemma [C09] [use:q3] [with:sh,q1,q2,quotedg] \
  [hint:quo(s),step("'", concat(inQuotes(s), "'")),step("'", ""),step("'", "'"),inq(s, ""),plain(s, "")] \
  one word: forall s string :: trigger(oR(quoted(s)) && wR(quoted(s)) == s && kR(quoted(s)) == "", quo(s))
lemma [C09] [use:q3] [with:sh,q1,q2,quotedg] \
  [hint:quo(s),step("'", concat(inQuotes(s), "'", " ", u)),step("'", concat("'", " ", u)),step("'", concat(" ", u)),step(" ", u),inq(s, concat(" ", u)),plain(s, concat(" ", u))] \
  first word: forall s string, u string :: trigger(oR(concat(quoted(s), " ", u)) && wR(concat(quoted(s), " ", u)) == s && kR(concat(quoted(s), " ", u)) == u, fw(s, u))
lemma [C09] [use:q3] [with:quoted] starts a word: forall s string :: trigger(quoted(s) != "" && at(quoted(s), 0) != " " && at(quoted(s), 0) != "\t" && at(quoted(s), 0) != "\n", quoted(s))

// lists: after(w, i) is what is left of w after reading i words
smtfun after(string, int) string
smtfun allQuoted(gmap[int]string, int, int, gmap[int]string) bool
smtfun aft(string, int) bool
smtfun jn(gmap[int]string, int, int) bool
smtfun allq(gmap[int]string, int, int, gmap[int]string, int) bool
axiom [use:words] forall w string, i int :: trigger(after(w, 0) == w && (i >= 0 ==> after(w, i + 1) == kR(after(w, i))), aft(w, i))
axiom [use:words] forall a gmap[int]string, o int, n int :: trigger((n == 0 ==> joinedOf(a, o, n, " ") == "") && (n == 1 ==> joinedOf(a, o, n, " ") == a[o]) && (n > 1 ==> joinedOf(a, o, n, " ") == concat(a[o], " ", joinedOf(a, o + 1, n - 1, " "))), jn(a, o, n))
axiom [use:words] forall a gmap[int]string, o int, n int, b gmap[int]string, j int :: trigger(allQuoted(a, o, n, b) && 0 <= j && j < n ==> a[o+j] == quoted(b[j]), allq(a, o, n, b, j))
lemma [C09] [use:w1] [with:words,q3] [induct:i] \
  [hint:aft(joinedOf(a, o, n, " "), i),aft(joinedOf(a, o, n, " "), rest),jn(a, o + rest, n - rest),allq(a, o, n, b, rest),fw(b[rest], joinedOf(a, o + rest + 1, n - rest - 1, " "))] \
  words in order: forall i int, a gmap[int]string, o int, n int, b gmap[int]string :: trigger(allQuoted(a, o, n, b) && i < n ==> \
  after(joinedOf(a, o, n, " "), i) == joinedOf(a, o + i, n - i, " "), wio(i, a, o, n, b))
smtfun wio(int, gmap[int]string, int, int, gmap[int]string) bool
lemma [C09] [with:words,q3,w1] \
  [hint:wio(i, a, o, n, b),jn(a, o + i, n - i),allq(a, o, n, b, i),fw(b[i], joinedOf(a, o + i + 1, n - i - 1, " ")),quo(b[i]),aft(joinedOf(a, o, n, " "), i)] \
  every word: forall i int, a gmap[int]string, o int, n int, b gmap[int]string :: allQuoted(a, o, n, b) && 0 <= i && i < n ==> \
  oR(after(joinedOf(a, o, n, " "), i)) && wR(after(joinedOf(a, o, n, " "), i)) == b[i] && (i == n - 1 ==> after(joinedOf(a, o, n, " "), i + 1) == "")

// ---- the functions ---------------------------------------------------------------------------------

pkg regexp
assume (re *Regexp).Match(b) (r)
  why the documented meaning of Match
  requires re != nil
  ensures r <==> refind(re, string(b))

pkg .
assume dereference(v) (r)
  why reflection: a text is not a pointer, and a pointer to a text gives the text
  pure
  ensures [use:deref] r == derefOf(v)
  ensures typeis(v, string) ==> r == v
  ensures typeis(v, *string) && unbox(v, *string) != nil ==> typeis(r, string) && unbox(r, string) == *unbox(v, *string)

func Quote(v) (r)
  props C09
  opt use quoted
  requires typeis(v, string) || typeis(v, *string) && unbox(v, *string) != nil
  nopanic
  ensures [text] typeis(v, string) ==> r == quoted(unbox(v, string))
  ensures [pointer] typeis(v, *string) ==> r == quoted(old(*unbox(v, *string)))

func Join(args) (r)
  props C09
  modifies ghost joinArr, ghost joinOff, ghost joinN
  nopanic
  ensures [joined] r == joinedOf(joinArr, joinOff, joinN, " ") && joinN == len(args)
  ensures [each] forall i int :: 0 <= i && i < len(args) ==> joinArr[joinOff+i] == quoted(args[i])
  inv [quoted []string ::] len(quoted) == len(args) && fresh(quoted)
  inv [quoted []string, iter int ::] forall i int :: 0 <= i && i < iter + 1 ==> quoted[i] == quoted(old(args[i]))

func (v *NameValue).String() (r)
  props C09
  requires v != nil
  nopanic
  ensures r == quoted(v.Name + "=" + v.Value)
