pkg .

// ---- C05: queries over recorded bindings, and replaying them -----------------------------------

// catLen is the number of values in the first k occurrences, idx names skipped in each.
// (defined by primitive recursion on k; the axioms are that definition)
smtfun catLen(gmap[int][]string, int, int, int) int
axiom forall a gmap[int][]string, o int, x int :: trigger(catLen(a, o, 0, x) == 0, catLen(a, o, 0, x))
axiom forall a gmap[int][]string, o int, x int, k int, j int :: trigger(j >= 0 && k == j + 1 ==> catLen(a, o, k, x) == catLen(a, o, j, x) + len(elt(a, o, j)) - x, catLen(a, o, k, x), catLen(a, o, j, x))

define occs(s [][]string, k int) int = catLen(elems(s), off(s), k, 1)
define isConcat(r []string, s [][]string, idx int) bool = len(r) == catLen(elems(s), off(s), len(s), idx) \
   && (forall i int, j int :: 0 <= i && i < len(s) && idx <= j && j < len(s[i]) ==> r[catLen(elems(s), off(s), i, idx) - idx + j] == s[i][j])
define named(s [][]string) bool = forall i int :: 0 <= i && i < len(s) ==> len(s[i]) >= 1

func (m BindingMap) lookup(name, occurs) (r)
  props C05
  requires occurs ==> named(m[name])
  nopanic
  ensures fresh(r) && r != nil
  ensures isConcat(r, m[name], if occurs :: 1 else 0)
  ensures !has(m, name) ==> len(r) == 0
  opt nocut
  opt closed
  inv [res []string ::] fresh(res)
  inv [res []string, iter int::] len(res) == catLen(elems(m[name]), off(m[name]), iter + 1, if occurs :: 1 else 0)
  inv [res []string, iter int::] forall i int :: 0 <= i && i <= iter ==> catLen(elems(m[name]), off(m[name]), i, if occurs :: 1 else 0) + len(m[name][i]) - (if occurs :: 1 else 0) <= len(res)
  inv [res []string, iter int::] forall i int, j int :: 0 <= i && i <= iter && (if occurs :: 1 else 0) <= j && j < len(m[name][i]) ==> res[catLen(elems(m[name]), off(m[name]), i, if occurs :: 1 else 0) - (if occurs :: 1 else 0) + j] == m[name][i][j]
  inv [res []string, iter int::] forall i int :: 0 <= i && i <= iter ==> catLen(elems(m[name]), off(m[name]), i, if occurs :: 1 else 0) >= 0

func (m BindingMap) Raw(name) (r)
  props C05
  nopanic
  ensures fresh(r) && isConcat(r, m[name], 0)

func (m BindingMap) RawOccurrences(name) (r)
  props C05
  requires named(m[name])
  nopanic
  ensures fresh(r) && isConcat(r, m[name], 1)

func (m BindingMap) Bindings(name) (r)
  props C05
  nopanic
  ensures has(m, name) ==> r == m[name]
  ensures !has(m, name) ==> len(r) == 0

func (m BindingMap) BindingNames() (r)
  props C05
  nopanic
  ensures forall i int :: 0 <= i && i < len(r) ==> has(m, r[i]) && r[i] != ""
  ensures forall i int, j int :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  ensures [every] forall n string :: has(m, n) && n != "" ==> exists i int :: 0 <= i && i < len(r) && r[i] == n
  inv [keys []string ::] forall i int :: 0 <= i && i < len(keys) ==> has(m, keys[i]) && keys[i] != ""
  inv [keys []string, vis gmap[string]bool ::] forall i int :: 0 <= i && i < len(keys) ==> has(vis, keys[i])
  inv [keys []string ::] forall i int, j int :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
  inv [keys []string, vis gmap[string]bool ::] forall n string :: has(vis, n) && n != "" ==> exists i int :: 0 <= i && i < len(keys) && keys[i] == n
  inv [keys []string ::] fresh(keys)

// Replaying: ghost variables hold the occurrences of the option being set and how many of them have
// been set.
ghost occAll [][]string
ghost occN int
ghost occData any
ghost applied gmap[int]int

define occIs(values []string) bool = occN < len(occAll) && len(values) == len(occAll[occN]) - 1 && (forall i int :: 0 <= i && i < len(values) ==> values[i] == occAll[occN][1+i])

assume BindingState.SetOccurrence(self, values) (err)
  why an option setter does not change the recorded occurrences
  requires [in-order] occIs(values)
  effect occN = occN + 1

assume functype:TransformFunc(self, values) (d, err)
  why a transform does not change the recorded occurrences
  requires [in-order] occN < len(occAll) && values == occAll[occN]
  effect occData = d

assume BindingState.SetOccurrenceData(self, d) (err)
  why an option setter does not change the recorded occurrences
  requires [transformed] d == occData && occN < len(occAll)
  effect occN = occN + 1

func rawApplyToOption(v, transform, value) (err)
  props C05
  requires value != nil && named(v)
  enter occAll = v
  enter occN = 0
  modifies ghost occData
  nopanic
  ensures [all] err == nil ==> occN == len(v)
  ensures [stop] occN <= len(v)
  inv [iter int ::] occN == iter + 1
  inv occAll == v
  effect applied = store(applied, loc(v), applied[loc(v)] + (if err == nil :: 1 else 0))

func (m BindingMap) ApplyTo(b) (err)
  props C05
  requires b != nil && sepLists(m) && (forall n string :: has(m, n) ==> named(m[n]) && len(m[n]) > 0)
  modifies ghost occData, ghost occAll, ghost occN, ghost applied
  nopanic
  ensures [each] err == nil ==> forall n string :: has(m, n) && definedName(b, n) ==> applied[loc(m[n])] == old(applied[loc(m[n])]) + 1
  inv [vis gmap[string]bool ::] forall n string :: has(m, n) && definedName(b, n) && has(vis, n) ==> applied[loc(m[n])] == old(applied[loc(m[n])]) + 1
  inv [vis gmap[string]bool ::] forall n string :: has(m, n) && !has(vis, n) ==> applied[loc(m[n])] == old(applied[loc(m[n])])
