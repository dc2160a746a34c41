// ---- C10: option bits and option sets ---------------------------------------------------------------
pkg .

func (f internalFlags) hidden() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagHidden != 0

func (f internalFlags) required() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagRequired != 0

func (f internalFlags) exits() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagExits != 0

func (f internalFlags) skipFlagParsing() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagSkipFlagParsing != 0

func (f internalFlags) disallowFlagsAfterArgs() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagDisallowFlagsAfterArgs != 0

func (f internalFlags) nonPersistent() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagNonPersistent != 0

func (f internalFlags) didSubcommandExecute() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagDidSubcommandExecute != 0

func (f internalFlags) disableSplitting() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagDisableSplitting != 0

func (f internalFlags) merge() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagMerge != 0

func (f internalFlags) mergeExplicitlyRequested() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagMergeExplicitlyRequested != 0

func (f internalFlags) rightToLeft() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagRightToLeft != 0

func (f internalFlags) flagOnly() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagFlagOnly != 0

func (f internalFlags) optional() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagOptional != 0

func (f internalFlags) persistent() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagPersistent != 0

func (f internalFlags) destinationImplicitlyCreated() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagDestinationImplicitlyCreated != 0

func (f internalFlags) impliedAction() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagImpliedAction != 0

func (f internalFlags) seenImplied() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagSeenImplied != 0

func (f internalFlags) initialized() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagInitialized != 0

func (f internalFlags) searchingAlternateCommand() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagSearchingAlternateCommand != 0

func (f internalFlags) robustParseModeEnabled() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagRobustParseModeEnabled != 0

func (f internalFlags) implicitTimingActive() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagImplicitTimingActive != 0

func (f internalFlags) taintSetup() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagTaintSetup != 0

func (f internalFlags) disableAutoVisibility() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagDisableAutoVisibility != 0

func (f internalFlags) visibleExplicitlyRequested() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagVisibleExplicitlyRequested != 0

func (f internalFlags) triggerRequested() (r)
  props C10
  nopanic
  pure
  ensures r <==> f & internalFlagTriggerRequested != 0

lemma [C10] the bits are distinct: forall f internalFlags :: internalFlagHidden != 0 && internalFlagRequired != 0 && internalFlagExits != 0 && internalFlagSkipFlagParsing != 0 && internalFlagDisallowFlagsAfterArgs != 0 && internalFlagNonPersistent != 0 && internalFlagDidSubcommandExecute != 0 && internalFlagDisableSplitting != 0 && internalFlagMerge != 0 && internalFlagMergeExplicitlyRequested != 0 && internalFlagRightToLeft != 0 && internalFlagFlagOnly != 0 && internalFlagOptional != 0 && internalFlagPersistent != 0 && internalFlagDestinationImplicitlyCreated != 0 && internalFlagImpliedAction != 0 && internalFlagSeenImplied != 0 && internalFlagInitialized != 0 && internalFlagSearchingAlternateCommand != 0 && internalFlagRobustParseModeEnabled != 0 && internalFlagImplicitTimingActive != 0 && internalFlagTaintSetup != 0 && internalFlagDisableAutoVisibility != 0 && internalFlagVisibleExplicitlyRequested != 0 && internalFlagTriggerRequested != 0 && (internalFlagHidden | internalFlagRequired | internalFlagExits | internalFlagSkipFlagParsing | internalFlagDisallowFlagsAfterArgs | internalFlagNonPersistent | internalFlagDidSubcommandExecute | internalFlagDisableSplitting | internalFlagMerge | internalFlagMergeExplicitlyRequested | internalFlagRightToLeft | internalFlagFlagOnly | internalFlagOptional | internalFlagPersistent | internalFlagDestinationImplicitlyCreated | internalFlagImpliedAction | internalFlagSeenImplied | internalFlagInitialized | internalFlagSearchingAlternateCommand | internalFlagRobustParseModeEnabled | internalFlagImplicitTimingActive | internalFlagTaintSetup | internalFlagDisableAutoVisibility | internalFlagVisibleExplicitlyRequested | internalFlagTriggerRequested) == (internalFlagHidden + internalFlagRequired + internalFlagExits + internalFlagSkipFlagParsing + internalFlagDisallowFlagsAfterArgs + internalFlagNonPersistent + internalFlagDidSubcommandExecute + internalFlagDisableSplitting + internalFlagMerge + internalFlagMergeExplicitlyRequested + internalFlagRightToLeft + internalFlagFlagOnly + internalFlagOptional + internalFlagPersistent + internalFlagDestinationImplicitlyCreated + internalFlagImpliedAction + internalFlagSeenImplied + internalFlagInitialized + internalFlagSearchingAlternateCommand + internalFlagRobustParseModeEnabled + internalFlagImplicitTimingActive + internalFlagTaintSetup + internalFlagDisableAutoVisibility + internalFlagVisibleExplicitlyRequested + internalFlagTriggerRequested)

func (i *internalFlagsSupport) setInternalFlags(f, v)
  props C10
  requires i != nil
  modifies i.flags
  nopanic
  ensures [set] v ==> i.flags == old(i.flags) | f
  ensures [clear] !v ==> i.flags == old(i.flags) & ^f

func (i *internalFlagsSupport) internalFlags() (r)
  props C10
  requires i != nil
  pure
  nopanic
  ensures r == i.flags

func (f internalFlags) toRaw() (r)
  props C10
  pure
  nopanic
  ensures [dash] (r & RawDisallowFlagsAfterArgs != 0) <==> (f & internalFlagDisallowFlagsAfterArgs != 0)
  ensures [rtl] (r & RawRTL != 0) <==> (f & internalFlagRightToLeft != 0)
  ensures [only] r & ^(RawDisallowFlagsAfterArgs | RawRTL) == 0

func (f *Flag) SetHidden(v)
  props C10
  requires f != nil
  modifies f.flags
  nopanic
  ensures f.flags == (if v :: old(f.flags) | internalFlagHidden else old(f.flags) & ^internalFlagHidden)

func (a *Arg) SetHidden(v)
  props C10
  requires a != nil
  modifies a.flags
  nopanic
  ensures a.flags == (if v :: old(a.flags) | internalFlagHidden else old(a.flags) & ^internalFlagHidden)

func (c *Command) SetHidden(value)
  props C10
  requires c != nil
  modifies c.flags
  nopanic
  ensures c.flags == (if value :: old(c.flags) | internalFlagHidden else old(c.flags) & ^internalFlagHidden)

func (v *valueTarget) SetHidden(c)
  props C10
  requires v != nil
  modifies v.flags
  nopanic
  ensures v.flags == (if c :: old(v.flags) | internalFlagHidden else old(v.flags) & ^internalFlagHidden)

func (f *Flag) SetRequired(v)
  props C10
  requires f != nil
  modifies f.flags
  nopanic
  ensures f.flags == (if v :: old(f.flags) | internalFlagRequired else old(f.flags) & ^internalFlagRequired)

func (a *Arg) SetRequired(v)
  props C10
  requires a != nil
  modifies a.flags
  nopanic
  ensures a.flags == (if v :: old(a.flags) | internalFlagRequired else old(a.flags) & ^internalFlagRequired)

// ---- splitting a set of options into its members, lowest first
bv Option
bv FilterModes
ghost seen Option
assume param:fn(self, current)
  why the caller's function: the obligation is that it is given one member at a time, each once, in increasing order
  requires [one] current & (current - 1) == 0 && current != 0
  requires [order] seen < current || seen == 0
  effect seen = seen | current
func splitOptionsHO(opts, fn)
  props C10
  opt bv int
  requires fn != nil
  modifies all
  requires seen == 0 && 0 <= opts
  ensures [every] seen == opts & (maxOption - 1)
  inv [options int, current int ::] seen & options == 0 && (seen | options) == opts
  inv [current int ::] current & (current - 1) == 0
  inv [current int ::] current != 0
  inv [options int, current int ::] options & (current - 1) == 0
  inv [current int ::] seen < current
  inv [current int ::] 0 < current && current <= maxOption

// left(a, o, i, v): what is left of v after its members among the first i keys were taken
smtfun left(gmap[int]uint, int, int, uint) uint
smtfun cnt(gmap[int]uint, int, int, uint) int
axiom [use:items] forall a gmap[int]uint, o int, v uint :: trigger(left(a, o, 0, v) == v && cnt(a, o, 0, v) == 0, left(a, o, 0, v))
axiom [use:items] forall a gmap[int]uint, o int, k int, j int, v uint :: trigger(k >= 0 && j == k + 1 ==> (if left(a, o, k, v) & elt(a, o, k) == elt(a, o, k) :: left(a, o, j, v) == left(a, o, k, v) & ^elt(a, o, k) else left(a, o, j, v) == left(a, o, k, v)), left(a, o, j, v), left(a, o, k, v))
axiom [use:items] forall a gmap[int]uint, o int, k int, j int, v uint :: trigger(k >= 0 && j == k + 1 ==> cnt(a, o, j, v) == cnt(a, o, k, v) + (if left(a, o, k, v) & elt(a, o, k) == elt(a, o, k) :: 1 else 0), cnt(a, o, j, v), cnt(a, o, k, v))

func (b *bitSet[T, V]) items(values) (r)
  props C10
  opt bv uint
  opt use items
  requires b != nil
  nopanic
  inv [parts []func(*Context) bool ::] fresh(parts) || len(parts) == 0
  ensures [number] len(r) == cnt(elems(b.keys), off(b.keys), len(b.keys), values)
  ensures [members] forall i int :: 0 <= i && i < len(b.keys) && left(elems(b.keys), off(b.keys), i, values) & b.keys[i] == b.keys[i] ==> r[cnt(elems(b.keys), off(b.keys), i, values)] == b.m[b.keys[i]]
  inv [options uint, iter int ::] options == left(elems(b.keys), off(b.keys), iter, values)
  inv [parts []func(*Context) bool, iter int ::] len(parts) == cnt(elems(b.keys), off(b.keys), iter, values)
  inv [parts []func(*Context) bool, iter int ::] forall i int :: 0 <= i && i < iter && left(elems(b.keys), off(b.keys), i, values) & b.keys[i] == b.keys[i] ==> 0 <= cnt(elems(b.keys), off(b.keys), i, values) && cnt(elems(b.keys), off(b.keys), i, values) < len(parts)
  inv [parts []func(*Context) bool, iter int ::] forall i int :: 0 <= i && i < iter && left(elems(b.keys), off(b.keys), i, values) & b.keys[i] == b.keys[i] ==> parts[cnt(elems(b.keys), off(b.keys), i, values)] == b.m[b.keys[i]]

// when no two keys share a bit, the members taken are exactly the keys contained in the value
smtfun disj(gmap[int]uint, int, int) bool
axiom [use:disj] forall a gmap[int]uint, o int, n int, p int, q int :: trigger(disj(a, o, n) && 0 <= p && p < q && q < n ==> elt(a, o, p) & elt(a, o, q) == 0, dj(a, o, n, p, q))
smtfun dj(gmap[int]uint, int, int, int, int) bool
lemma [C10] [bv:uint] [with:items,disj] [induct:i] [use:disjmembers] an untaken key is untouched: forall i int, a gmap[int]uint, o int, v uint, n int, j int :: trigger(disj(a, o, n) && i <= j && j < n && (i == j || dj(a, o, n, i, j) || !dj(a, o, n, i, j)) ==> left(a, o, i, v) & elt(a, o, j) == v & elt(a, o, j), left(a, o, i, v), elt(a, o, j))

pkg sort
smtfun permOf(gmap[int]uint, int, int, int) int
smtfun posOf(gmap[int]uint, int, int, int) int
assume Slice(x, less)
  why the documented meaning of sort.Slice: the same elements in another order
  requires typeis(x, []uint)
  modifies unbox(x, []uint)[*]
  ensures forall i int :: 0 <= i && i < len(unbox(x, []uint)) ==> 0 <= permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), i) && permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), i) < len(unbox(x, []uint)) && unbox(x, []uint)[i] == elt(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), i))
  ensures forall i int :: trigger(0 <= i && i < len(unbox(x, []uint)) ==> posOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), i)) == i, permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), i))
  ensures forall j int :: trigger(0 <= j && j < len(unbox(x, []uint)) ==> 0 <= posOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), j) && posOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), j) < len(unbox(x, []uint)) && permOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), posOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), j)) == j && unbox(x, []uint)[posOf(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), len(unbox(x, []uint)), j)] == elt(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), j), elt(old(elems(unbox(x, []uint))), off(unbox(x, []uint)), j))

pkg .
func decompose(m) (r)
  props C10
  opt bv uint
  requires m != nil
  nopanic
  ensures [map] r.m == m && fresh(r)
  ensures [number] len(r.keys) == len(m)
  ensures [members] forall i int :: 0 <= i && i < len(r.keys) ==> has(m, r.keys[i])
  ensures [distinct] forall i int, j int :: 0 <= i && i < j && j < len(r.keys) ==> r.keys[i] != r.keys[j]
  ensures [every] forall k FilterModes :: has(m, k) ==> exists i int :: 0 <= i && i < len(r.keys) && r.keys[i] == k
  inv [keys []uint ::] fresh(keys) && len(keys) == len(m)
  inv [i int, vis gmap[FilterModes]bool ::] i == size(vis)
  inv [keys []uint, i int, vis gmap[FilterModes]bool ::] forall p int :: 0 <= p && p < i ==> has(vis, keys[p]) && has(m, keys[p])
  inv [keys []uint, i int ::] forall p int, q int :: 0 <= p && p < q && q < i ==> keys[p] != keys[q]
  inv [keys []uint, i int, vis gmap[FilterModes]bool ::] forall k FilterModes :: has(vis, k) ==> exists p int :: 0 <= p && p < i && keys[p] == k
