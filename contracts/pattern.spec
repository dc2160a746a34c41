// ---- C15: context patterns match by path suffix --------------------------------------------------------
pkg .

define isFlagText(f string) = prefixof("-", f)
define isExprText(f string) = prefixof("<-", f)
define isArgText(f string) = prefixof("<", f) && !prefixof("<-", f)
define isCommandText(f string) = !prefixof("-", f) && !prefixof("<", f)

// what one element of a pattern matches
define elementMatches(p string, f string) = p == "" || (if p == "*" :: isCommandText(f) else if p == "-" || p == "--" :: isFlagText(f) else if p == "<>" :: isArgText(f) else if p == "<->" :: isExprText(f) else (p == f || prefixof("-", p) && f == concat("-", p)))

smtfun elem(string, string) bool
axiom [use:elem] forall p string, f string :: trigger(elem(p, f) <==> elementMatches(p, f), elem(p, f))

func matchCommand(field) (r)
  props C15
  pure
  nopanic
  ensures r <==> isCommandText(field)
func matchExpr(field) (r)
  props C15
  pure
  nopanic
  ensures r <==> isExprText(field)
func matchArg(field) (r)
  props C15
  pure
  nopanic
  ensures r <==> isArgText(field)
func matchFlag(field) (r)
  props C15
  pure
  nopanic
  ensures r <==> isFlagText(field)

func matchField(pattern, field) (r)
  props C15
  opt use elem
  pure
  nopanic
  ensures r <==> elem(pattern, field)

define suffixMatches(p []string, c []string) = len(p) <= len(c) && forall k int :: 0 <= k && k < len(p) ==> elem(p[len(p) - 1 - k], c[len(c) - 1 - k])

func (cp contextPathPattern) Match(c) (r)
  props C15
  pure
  nopanic
  ensures [suffix] r <==> suffixMatches(cp.parts, c)
  inv [i int, j int ::] len(cp.parts) - i == len(c) - j
  inv [i int ::] i >= -1 && i < len(cp.parts)
  inv [j int ::] j >= -1
  inv [i int ::] forall k int :: 0 <= k && k < len(cp.parts) - 1 - i ==> elem(cp.parts[len(cp.parts) - 1 - k], c[len(c) - 1 - k])

func (c ContextPath) Last() (r)
  props C15
  pure
  requires len(c) > 0
  nopanic
  ensures r == c[len(c) - 1]
func (c ContextPath) IsCommand() (r)
  props C15
  pure
  requires len(c) > 0
  nopanic
  ensures r <==> isCommandText(c[len(c) - 1])
func (c ContextPath) IsFlag() (r)
  props C15
  pure
  requires len(c) > 0
  nopanic
  ensures r <==> isFlagText(c[len(c) - 1])
func (c ContextPath) IsArg() (r)
  props C15
  pure
  requires len(c) > 0
  nopanic
  ensures r <==> isArgText(c[len(c) - 1])
func (c ContextPath) IsExpr() (r)
  props C15
  pure
  requires len(c) > 0
  nopanic
  ensures r <==> isExprText(c[len(c) - 1])

pkg strings
ghost fieldsOf []string
assume Fields(s) (r)
  why the words of s, as documented; compared by the bounded stand-in
  ensures r == words(s)
pkg .
smtfun words(string) []string
func newContextPathPattern(pat) (r)
  props C15
  pure
  ensures r.parts == words(pat)
func (c ContextPath) Match(pattern) (r)
  props C15
  pure
  ensures [words] r <==> suffixMatches(words(pattern), c)
