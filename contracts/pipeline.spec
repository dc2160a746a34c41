// ---- C11: pipelines run in order and stop at the first error -----------------------------------------
pkg .

// The list of actions being run is lA[lO..lO+lN); nran of them have been run; lastErr is the error of the
// last one; handed says that a middleware was given the rest of the list.
ghost lA gmap[int]any
ghost lO int
ghost lN int
ghost nran int
ghost lastErr error
ghost handed bool

// cells(next, action, o, n, a, i): the cells from o on are a list of the n actions a[i..i+n)
smtfun cells(gmap[*cons]*cons, gmap[*cons]Action, *cons, int, gmap[int]any, int) bool
axiom [use:list] forall x gmap[*cons]*cons, y gmap[*cons]Action, o *cons, n int, a gmap[int]any, i int :: trigger(cells(x, y, o, n, a, i) ==> n >= 0 && (n == 0 <==> o == nil), cells(x, y, o, n, a, i))
axiom [use:list] forall x gmap[*cons]*cons, y gmap[*cons]Action, a gmap[int]any, i int :: trigger(cells(x, y, nil, 0, a, i), cells(x, y, nil, 0, a, i))
axiom [use:list] forall x gmap[*cons]*cons, y gmap[*cons]Action, o *cons, n int, a gmap[int]any, i int :: trigger(o != nil && n > 0 ==> \
  (cells(x, y, o, n, a, i) <==> y[o] == a[i] && x[o] < o && cells(x, y, x[o], n - 1, a, i + 1)), cells(x, y, o, n, a, i), x[o])

assume Action.Execute(self, c) (err)
  why a user's action does not change the cells of a running pipeline, which are private; the obligation is that it is the next action of the list and that none has failed or been handed on before it
  requires [C11] [order] 0 <= nran && nran < lN && self == lA[lO+nran]
  requires [C11] [stopped] lastErr == nil && !handed
  effect nran = old(nran) + 1
  effect lastErr = err

assume Middleware.ExecuteWithNext(self, c, next) (err)
  why a user's middleware does not change the cells of a running pipeline; the obligation is that it is next and is given exactly the rest
  requires [C11] [order] 0 <= nran && nran < lN && self == lA[lO+nran]
  requires [C11] [stopped] lastErr == nil && !handed
  requires [C11] [rest] typeis(next, *cons) && cells(fieldmap(cons.next), fieldmap(cons.action), unbox(next, *cons), lN - nran - 1, lA, lO + nran + 1)
  effect nran = old(nran) + 1
  effect handed = true
  effect lastErr = err

func (o *cons) Execute(c) (err)
  props C11
  opt use list,older
  nopanic
  requires 0 <= nran && nran <= lN && cells(fieldmap(cons.next), fieldmap(cons.action), o, lN - nran, lA, lO + nran)
  requires lastErr == nil && !handed
  requires forall i int :: lO <= i && i < lO + lN ==> lA[i] != nil
  modifies ghost nran, ghost lastErr, ghost handed
  ensures [result] err == lastErr
  ensures [all] err == nil && !handed ==> nran == lN
  ensures [progress] nran >= old(nran) && nran <= lN
  ensures [error] err != nil ==> nran > old(nran)

// cells that no older cell refers to can be added without changing a list
smtfun agree(gmap[*cons]*cons, gmap[*cons]Action, gmap[*cons]*cons, gmap[*cons]Action, *cons) bool
smtfun ag(gmap[*cons]*cons, gmap[*cons]Action, gmap[*cons]*cons, gmap[*cons]Action, *cons, *cons) bool
axiom [use:list] forall x gmap[*cons]*cons, y gmap[*cons]Action, u gmap[*cons]*cons, v gmap[*cons]Action, o *cons :: trigger((forall q *cons :: q <= o ==> x[q] == u[q] && y[q] == v[q]) ==> agree(x, y, u, v, o), agree(x, y, u, v, o))
axiom [use:agree] forall x gmap[*cons]*cons, y gmap[*cons]Action, u gmap[*cons]*cons, v gmap[*cons]Action, o *cons, q *cons :: trigger(agree(x, y, u, v, o) && q <= o ==> x[q] == u[q] && y[q] == v[q] && agree(x, y, u, v, q), ag(x, y, u, v, o, q))

lemma [C11] [use:older] [with:list,agree] [induct:n] older cells: forall n int, x gmap[*cons]*cons, y gmap[*cons]Action, u gmap[*cons]*cons, v gmap[*cons]Action, o *cons, a gmap[int]any, i int :: \
  trigger(cells(x, y, o, n, a, i) && agree(x, y, u, v, o) && (ag(x, y, u, v, o, o) || !ag(x, y, u, v, o, o)) && (ag(x, y, u, v, o, x[o]) || !ag(x, y, u, v, o, x[o])) ==> cells(u, v, o, n, a, i), cells(x, y, o, n, a, i), cells(u, v, o, n, a, i))

func (p ActionPipeline) toCons() (r)
  props C11
  opt use list,older
  opt infer 1000
  nopanic
  ensures [cells] cells(fieldmap(cons.next), fieldmap(cons.action), r, len(p), elems(p), off(p))
  inv [head *cons, i int ::] cells(fieldmap(cons.next), fieldmap(cons.action), head, len(p) - 1 - i, elems(p), off(p) + i + 1)
  inv [i int ::] -1 <= i && i < len(p)
  inv [head *cons ::] allocated(head) && (head == nil || fieldmap(cons.next)[head] < head)

func (p ActionPipeline) Execute(c) (err)
  props C11
  opt use list,older
  nopanic
  requires lA == elems(p) && lO == off(p) && lN == len(p) && nran == 0 && lastErr == nil && !handed
  requires forall i int :: lO <= i && i < lO + lN ==> lA[i] != nil
  modifies ghost nran, ghost lastErr, ghost handed
  ensures [result] err == lastErr
  ensures [all] err == nil && !handed ==> nran == len(p)
  ensures [progress] 0 <= nran && nran <= len(p)
  ensures [error] err != nil ==> nran > 0

// Append and Prepend make new pipelines: no modifies clause, so no element of an existing array changes
func (p ActionPipeline) Append(x) (r)
  props C11
  nopanic
  ensures [length] len(r) == len(p) + len(x)
  ensures [first] forall i int :: 0 <= i && i < len(p) ==> r[i] == p[i]
  ensures [then] forall i int :: 0 <= i && i < len(x) ==> r[len(p)+i] == x[i]

func (p ActionPipeline) Prepend(x) (r)
  props C11
  nopanic
  ensures [length] len(r) == len(p) + len(x)
  ensures [first] forall i int :: 0 <= i && i < len(x) ==> r[i] == x[i]
  ensures [then] forall i int :: 0 <= i && i < len(p) ==> r[len(x)+i] == p[i]

func (p ActionPipeline) anyNested() (r)
  props C11
  nopanic
  pure
  ensures [nested] r <==> (exists i int :: 0 <= i && i < len(p) && typeis(p[i], ActionPipeline))
  inv [i int ::] forall j int :: 0 <= j && j <= i ==> !typeis(p[j], ActionPipeline)

func (p ActionPipeline) flatten() (r)
  props C11
  nopanic
  ensures [flat] (forall i int :: 0 <= i && i < len(p) ==> !typeis(p[i], ActionPipeline)) ==> len(r) == len(p) && forall i int :: 0 <= i && i < len(p) ==> r[i] == p[i]

func Do(c, action) (err)
  props C11
  nopanic
  requires action != nil ==> 0 <= nran && nran < lN && action == lA[lO+nran] && lastErr == nil && !handed
  modifies ghost nran, ghost lastErr, ghost handed
  ensures [nil] action == nil ==> err == nil && nran == old(nran) && lastErr == old(lastErr)
  ensures [once] action != nil ==> nran == old(nran) + 1 && err == lastErr
