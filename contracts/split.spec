pkg strings

smtfun trim(string) string
smtfun plainLen(string, string, int) int
smtfun plainPart(string, string, int, int) string
smtfun joined(gmap[int]string, int, int, string) string

assume TrimSpace(s) (r)
  why documented behaviour of the standard library
  pure
  ensures r == trim(s)

assume SplitN(s, sep, n) (r)
  why documented behaviour of the standard library
  ensures fresh(r)
  ensures len(r) == plainLen(s, sep, n)
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] == plainPart(s, sep, n, i)

// SplitN(s, sep, 2) with a separator: before and after its first instance
axiom forall s string, sep string :: trigger(sep != "" && contains(s, sep) ==> plainLen(s, sep, 2) == 2 && plainPart(s, sep, 2, 0) == substr(s, 0, indexof(s, sep, 0)) && plainPart(s, sep, 2, 1) == substr(s, indexof(s, sep, 0) + len(sep), len(s)), plainLen(s, sep, 2))
axiom forall s string, sep string :: trigger(sep != "" && !contains(s, sep) ==> plainLen(s, sep, 2) == 1 && plainPart(s, sep, 2, 0) == s, plainLen(s, sep, 2))
axiom forall s string, sep string :: trigger(sep != "" ==> plainLen(s, sep, -1) >= 1, plainLen(s, sep, -1))

pkg internal/support

// ---- C08: cutting at separators that no backslash precedes -------------------------------------

define isCut(s string, sep string, i int) bool = 0 <= i && i + len(sep) <= len(s) && substr(s, i, len(sep)) == sep && !(i > 0 && at(s, i - 1) == "\\")
define unescape(s string) string = replaceall(s, "\\", "")

// nextCut(s, sep, i) is the first cut at or after i, or -1; (primitive recursion downwards)
smtfun nextCut(string, string, int) int
axiom forall s string, sep string, i int :: trigger(i >= 0 ==> (isCut(s, sep, i) ==> nextCut(s, sep, i) == i), nextCut(s, sep, i))
axiom forall s string, sep string, i int, j int :: trigger(i >= 0 && j == i + 1 && !isCut(s, sep, i) ==> nextCut(s, sep, i) == nextCut(s, sep, j), nextCut(s, sep, i), nextCut(s, sep, j))
axiom forall s string, sep string, i int :: trigger(i >= 0 && i + len(sep) > len(s) ==> nextCut(s, sep, i) == -1, nextCut(s, sep, i))

// partStart(s, sep, k) is where part k starts: after k cuts.
smtfun partStart(string, string, int) int
axiom forall s string, sep string :: trigger(partStart(s, sep, 0) == 0, partStart(s, sep, 0))
axiom forall s string, sep string, k int, j int :: trigger(k >= 0 && j == k + 1 ==> partStart(s, sep, j) == nextCut(s, sep, partStart(s, sep, k)) + len(sep), partStart(s, sep, k), partStart(s, sep, j))

define partText(s string, sep string, k int) string = substr(s, partStart(s, sep, k), nextCut(s, sep, partStart(s, sep, k)) - partStart(s, sep, k))

func splitEscaped(s, sep, n) (r)
  props C08
  requires sep != "" && s != ""
  nopanic
  ensures [none] n == 0 ==> len(r) == 0
  ensures [some] n != 0 ==> len(r) >= 1
  ensures [count] n > 0 ==> len(r) <= n
  ensures [fresh] fresh(r) || r == nil
  ensures [parts] len(r) > 1 ==> forall k int :: 0 <= k && k < len(r) - 1 ==> nextCut(s, sep, partStart(s, sep, k)) >= 0 && r[k] == unescape(partText(s, sep, k))
  ensures [last] len(r) > 1 ==> r[len(r)-1] == unescape(substr(s, partStart(s, sep, len(r)-1), len(s)))
  ensures [whole] len(r) == 1 ==> r[0] == s
  ensures [all] len(r) >= 1 && (n < 0 || len(r) < n) ==> nextCut(s, sep, partStart(s, sep, len(r)-1)) == -1
  opt norel
  opt quick 1500
  opt infer 900
  inv [res []string ::] fresh(res) && (n > 0 ==> len(res) <= n - 1) && len(res) >= 0
  inv [last int, i int ::] 0 <= last && last <= i && i <= len(s)
  inv [res []string, last int ::] last == partStart(s, sep, len(res))
  inv [last int, i int ::] nextCut(s, sep, last) == nextCut(s, sep, i)
  inv [res []string ::] forall k int :: 0 <= k && k < len(res) ==> nextCut(s, sep, partStart(s, sep, k)) >= 0 && res[k] == unescape(partText(s, sep, k))

// cutting at "=" once: the number of parts, the first and the second
define eqCut(t string) int = if contains(t, "\\") :: nextCut(t, "=", 0) else indexof(t, "=", 0)
define eqUn(t string, x string) string = if contains(t, "\\") :: unescape(x) else x
smtfun eqParts(string) int
smtfun eqKey(string) string
smtfun eqVal(string) string
axiom [use:eq] forall s string :: trigger(eqParts(s) == (if trim(s) == "" :: 0 else (if eqCut(trim(s)) < 0 :: 1 else 2)), eqParts(s))
axiom [use:eq] forall s string :: trigger(eqKey(s) == (if eqCut(trim(s)) < 0 :: trim(s) else eqUn(trim(s), substr(trim(s), 0, eqCut(trim(s))))), eqKey(s))
axiom [use:eq] forall s string :: trigger(eqVal(s) == eqUn(trim(s), substr(trim(s), eqCut(trim(s)) + 1, len(trim(s)))), eqVal(s))

// what SplitList gives
define escaped(s string) bool = contains(trim(s), "\\")

func SplitList(s, sep, n) (r)
  props C08
  opt use eq,parts
  requires sep != ""
  nopanic
  ensures [blank] trim(s) == "" ==> len(r) == 0
  ensures [use:parts] [plain] trim(s) != "" && !escaped(s) ==> len(r) == plainLen(trim(s), sep, n) && forall i int :: 0 <= i && i < len(r) ==> r[i] == plainPart(trim(s), sep, n, i)
  ensures [use:parts] [none] n == 0 && escaped(s) ==> len(r) == 0
  ensures [use:parts] [count] n > 0 && escaped(s) ==> len(r) <= n
  ensures [use:parts] [some] n != 0 && trim(s) != "" && escaped(s) ==> len(r) >= 1
  ensures [use:parts] [parts] escaped(s) && len(r) > 1 ==> forall k int :: 0 <= k && k < len(r) - 1 ==> nextCut(trim(s), sep, partStart(trim(s), sep, k)) >= 0 && r[k] == unescape(partText(trim(s), sep, k))
  ensures [use:parts] [last] escaped(s) && len(r) > 1 ==> r[len(r)-1] == unescape(substr(trim(s), partStart(trim(s), sep, len(r)-1), len(trim(s))))
  ensures [use:parts] [whole] escaped(s) && len(r) == 1 ==> r[0] == trim(s)
  ensures [use:parts] [all] escaped(s) && len(r) >= 1 && (n < 0 || len(r) < n) ==> nextCut(trim(s), sep, partStart(trim(s), sep, len(r)-1)) == -1
  ensures [use:pair] [pair] sep == "=" && n == 2 ==> len(r) == eqParts(s) && 0 <= len(r) && len(r) <= 2 && (len(r) >= 1 ==> r[0] == eqKey(s)) && (len(r) >= 2 ==> r[1] == eqVal(s))
  ensures [use:list] [list-count] n == -1 ==> splitN(s, sep, len(r))
  ensures [use:list] [list-items] n == -1 ==> forall i int :: 0 <= i && i < len(r) ==> r[i] == splitItem(s, sep, i)

// item i of a whole split (no limit on the number of parts), and when there are n items
define itemAt(s string, sep string, i int) string = \
   if !escaped(s) :: plainPart(trim(s), sep, -1, i) \
   else (if nextCut(trim(s), sep, 0) < 0 :: trim(s) \
   else (if nextCut(trim(s), sep, partStart(trim(s), sep, i)) < 0 :: unescape(substr(trim(s), partStart(trim(s), sep, i), len(trim(s)))) \
   else unescape(partText(trim(s), sep, i))))
define itemCount(s string, sep string, n int) bool = \
   (trim(s) == "" ==> n == 0) \
   && (trim(s) != "" && !escaped(s) ==> n == plainLen(trim(s), sep, -1)) \
   && (trim(s) != "" && escaped(s) ==> n >= 1 && nextCut(trim(s), sep, partStart(trim(s), sep, n - 1)) < 0 && forall k int :: 0 <= k && k < n - 1 ==> nextCut(trim(s), sep, partStart(trim(s), sep, k)) >= 0)
smtfun splitN(string, string, int) bool
smtfun splitItem(string, string, int) string
axiom [use:eq] forall s string, sep string, n int :: trigger(splitN(s, sep, n) == itemCount(s, sep, n), splitN(s, sep, n))
axiom [use:eq] forall s string, sep string, i int :: trigger(splitItem(s, sep, i) == itemAt(s, sep, i), splitItem(s, sep, i))

// ---- key=value pairs -----------------------------------------------------------------------------

// after the first k items: the current name and value, and the map (primitive recursion on k)
smtfun pmKey(gmap[int]string, int, int) string
smtfun pmVal(gmap[int]string, int, int) string
smtfun pmHas(gmap[int]string, int, int) gmap[string]bool
smtfun pmMap(gmap[int]string, int, int) gmap[string]string
axiom forall a gmap[int]string, o int :: trigger(pmKey(a, o, 0) == "", pmKey(a, o, 0))
axiom forall a gmap[int]string, o int :: trigger(pmVal(a, o, 0) == "", pmVal(a, o, 0))
axiom forall a gmap[int]string, o int, n string :: trigger(!pmHas(a, o, 0)[n], pmHas(a, o, 0)[n])
axiom forall a gmap[int]string, o int, k int, j int :: trigger(k >= 0 && j == k + 1 ==> pmKey(a, o, j) == (if eqParts(elt(a, o, k)) == 2 :: eqKey(elt(a, o, k)) else pmKey(a, o, k)), pmKey(a, o, j), pmKey(a, o, k))
axiom forall a gmap[int]string, o int, k int, j int :: trigger(k >= 0 && j == k + 1 ==> pmVal(a, o, j) == (if eqParts(elt(a, o, k)) == 2 :: eqVal(elt(a, o, k)) else (if eqParts(elt(a, o, k)) == 1 :: concat(pmVal(a, o, k), ",", eqKey(elt(a, o, k))) else pmVal(a, o, k))), pmVal(a, o, j), pmVal(a, o, k))
axiom forall a gmap[int]string, o int, k int, j int :: trigger(k >= 0 && j == k + 1 ==> pmHas(a, o, j) == store(pmHas(a, o, k), pmKey(a, o, j), true), pmHas(a, o, j), pmHas(a, o, k))
axiom forall a gmap[int]string, o int, k int, j int :: trigger(k >= 0 && j == k + 1 ==> pmMap(a, o, j) == store(pmMap(a, o, k), pmKey(a, o, j), pmVal(a, o, j)), pmMap(a, o, j), pmMap(a, o, k))

func ParseMap(values) (r)
  props C08
  opt norel
  opt quick 1500
  opt use pair
  opt infer 1000
  nopanic
  ensures [fresh] fresh(r) && r != nil
  ensures [names] forall n string :: has(r, n) <==> pmHas(elems(values), off(values), len(values))[n]
  ensures [values] forall n string :: pmHas(elems(values), off(values), len(values))[n] ==> r[n] == pmMap(elems(values), off(values), len(values))[n]
  inv [iter int ::] 0 <= iter + 1 && iter + 1 <= len(values)
  inv [res map[string]string ::] fresh(res) && res != nil
  inv [key string, iter int ::] key == pmKey(elems(values), off(values), iter + 1)
  inv [value string, iter int ::] value == pmVal(elems(values), off(values), iter + 1)
  inv [res map[string]string, iter int ::] forall n string :: has(res, n) <==> pmHas(elems(values), off(values), iter + 1)[n]
  inv [res map[string]string, iter int ::] forall n string :: pmHas(elems(values), off(values), iter + 1)[n] ==> res[n] == pmMap(elems(values), off(values), iter + 1)[n]

// formatting: every item is one sorted key=value text
smtfun sortedOf(gmap[int]string, int, int) gmap[int]string
smtfun joinedOf(gmap[int]string, int, int, string) string
ghost sortArr gmap[int]string
ghost sortOff int
ghost sortN int
ghost joinArr gmap[int]string
ghost joinOff int
ghost joinN int

pkg sort

assume Strings(x)
  why the documented meaning of Strings: the same texts, in increasing order
  modifies x[*]
  effect sortArr = old(elems(x))
  effect sortOff = off(x)
  effect sortN = len(x)
  ensures forall i int :: 0 <= i && i < len(x) ==> x[i] == sortedOf(old(elems(x)), off(x), len(x))[i]

pkg strings

assume Join(a, sep) (r)
  why the documented meaning of strings.Join
  effect joinArr = elems(a)
  effect joinOff = off(a)
  effect joinN = len(a)
  ensures r == joinedOf(elems(a), off(a), len(a), sep)

pkg internal/support

func FormatMap(m, delim) (r)
  props C08
  modifies ghost sortArr, ghost sortOff, ghost sortN, ghost joinArr, ghost joinOff, ghost joinN
  nopanic
  ensures [count] sortN == len(m)
  ensures [items] forall k string :: has(m, k) ==> exists i int :: 0 <= i && i < sortN && sortArr[sortOff+i] == k + "=" + m[k]
  ensures [joined] r == joinedOf(joinArr, joinOff, joinN, delim) && joinN == len(m) && forall i int :: 0 <= i && i < joinN ==> joinArr[joinOff+i] == sortedOf(sortArr, sortOff, sortN)[i]
  inv [i int, vis gmap[string]bool ::] i == size(vis)
  inv [i int, items []string ::] 0 <= i && len(items) == len(m) && fresh(items)
  inv [vis gmap[string]bool ::] forall k string :: has(vis, k) ==> has(m, k)
  inv [i int, items []string, vis gmap[string]bool ::] forall k string :: has(vis, k) ==> exists j int :: 0 <= j && j < i && items[j] == k + "=" + m[k]

pkg .

func splitValuePair(arg) (k, v, hasValue)
  props C08
  opt use pair
  nopanic
  ensures hasValue <==> eqParts(arg) == 2
  ensures eqParts(arg) == 0 ==> k == "" && v == "true"
  ensures eqParts(arg) == 1 ==> k == eqKey(arg) && v == "true"
  ensures eqParts(arg) == 2 ==> k == eqKey(arg) && v == eqVal(arg)

func (v *NameValue).Set(arg) (err)
  props C08
  requires v != nil
  modifies v.Name, v.Value
  nopanic
  ensures err == nil
  ensures old(v.Name) != "" ==> v.Name == old(v.Name) && v.Value == arg
  ensures old(v.Name) == "" && eqParts(arg) == 0 ==> v.Name == "" && v.Value == "true"
  ensures old(v.Name) == "" && eqParts(arg) == 1 ==> v.Name == eqKey(arg) && v.Value == "true"
  ensures old(v.Name) == "" && eqParts(arg) == 2 ==> v.Name == eqKey(arg) && v.Value == eqVal(arg)

func (v *NameValue).Reset()
  props C07 C08
  requires v != nil
  modifies v.Name, v.Value
  nopanic
  ensures v.Name == "" && v.Value == ""
