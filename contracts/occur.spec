pkg .
bv internalFlags

// ---- C07: what an occurrence does to the value that was there before ------------------------------

define merging(f internalFlags) bool = f & internalFlagMerge == internalFlagMerge
define mergeAsked(f internalFlags) bool = f & internalFlagMergeExplicitlyRequested == internalFlagMergeExplicitlyRequested
define noSplit(f internalFlags) bool = f & internalFlagDisableSplitting == internalFlagDisableSplitting

// values that know how to reset themselves: how often each was reset / told not to split
ghost resets gmap[any]int
ghost noSplits gmap[any]int

assume valueResetOrMerge.Reset(self)
  why a user's value type resets only itself
  effect resets = store(resets, self, resets[self] + 1)

assume valueDisableSplitting.DisableSplitting(self)
  why a user's value type changes only itself
  effect noSplits = store(noSplits, self, noSplits[self] + 1)

define isText(p any) bool = typeis(p, *string) && unbox(p, *string) != nil
define isList(p any) bool = typeis(p, *[]string) && unbox(p, *[]string) != nil
define isPairs(p any) bool = typeis(p, *[]*NameValue) && unbox(p, *[]*NameValue) != nil
define isMap(p any) bool = typeis(p, *map[string]string) && unbox(p, *map[string]string) != nil
define selfReset(p any) bool = implements(p, valueResetOrMerge)
define known(p any) bool = (typeis(p, *string) ==> unbox(p, *string) != nil) && (typeis(p, *[]string) ==> unbox(p, *[]string) != nil) && (typeis(p, *[]*NameValue) ==> unbox(p, *[]*NameValue) != nil) && (typeis(p, *map[string]string) ==> unbox(p, *map[string]string) != nil)

func optionApplyValueConventions(p, flags, firstOccur)
  props C07
  requires known(p)
  modifies *unbox(p, *string)
  modifies *unbox(p, *[]string)
  modifies *unbox(p, *[]*NameValue)
  modifies *unbox(p, *map[string]string)
  modifies ghost resets, ghost noSplits
  nopanic
  ensures [text] isText(p) && !merging(flags) ==> *unbox(p, *string) == ""
  ensures [text-merge] isText(p) && merging(flags) ==> *unbox(p, *string) == old(*unbox(p, *string))
  ensures [list] isList(p) && !merging(flags) && firstOccur ==> len(*unbox(p, *[]string)) == 0
  ensures [list-later] isList(p) && (merging(flags) || !firstOccur) ==> *unbox(p, *[]string) == old(*unbox(p, *[]string))
  ensures [pairs] isPairs(p) && !merging(flags) && firstOccur ==> len(*unbox(p, *[]*NameValue)) == 0
  ensures [pairs-later] isPairs(p) && (merging(flags) || !firstOccur) ==> *unbox(p, *[]*NameValue) == old(*unbox(p, *[]*NameValue))
  ensures [map] isMap(p) && !merging(flags) && firstOccur ==> *unbox(p, *map[string]string) != nil && fresh(*unbox(p, *map[string]string)) && forall k string :: !has(*unbox(p, *map[string]string), k)
  ensures [map-later] isMap(p) && (merging(flags) || !firstOccur) ==> *unbox(p, *map[string]string) == old(*unbox(p, *map[string]string))
  ensures [self] selfReset(p) && !merging(flags) ==> resets[p] == old(resets[p]) + 1
  ensures [self-merge] selfReset(p) && merging(flags) ==> resets[p] == old(resets[p])
  ensures [int] typeis(p, *int) && unbox(p, *int) != nil ==> *unbox(p, *int) == old(*unbox(p, *int))
  ensures [bool] typeis(p, *bool) && unbox(p, *bool) != nil ==> *unbox(p, *bool) == old(*unbox(p, *bool))
  ensures [nosplit] implements(p, valueDisableSplitting) ==> noSplits[p] == old(noSplits[p]) + (if firstOccur && noSplit(flags) :: 1 else 0)

func optionReset(p, flags)
  props C07
  requires known(p)
  modifies *unbox(p, *string)
  modifies *unbox(p, *[]string)
  modifies *unbox(p, *[]*NameValue)
  modifies *unbox(p, *map[string]string)
  modifies ghost resets, ghost noSplits
  nopanic
  ensures [text] isText(p) && !(merging(flags) && mergeAsked(flags)) ==> *unbox(p, *string) == ""
  ensures [text-merge] isText(p) && merging(flags) && mergeAsked(flags) ==> *unbox(p, *string) == old(*unbox(p, *string))
  ensures [list] isList(p) && !(merging(flags) && mergeAsked(flags)) ==> len(*unbox(p, *[]string)) == 0
  ensures [list-merge] isList(p) && merging(flags) && mergeAsked(flags) ==> *unbox(p, *[]string) == old(*unbox(p, *[]string))
  ensures [pairs] isPairs(p) && !(merging(flags) && mergeAsked(flags)) ==> len(*unbox(p, *[]*NameValue)) == 0
  ensures [pairs-merge] isPairs(p) && merging(flags) && mergeAsked(flags) ==> *unbox(p, *[]*NameValue) == old(*unbox(p, *[]*NameValue))
  ensures [map] isMap(p) && !(merging(flags) && mergeAsked(flags)) ==> *unbox(p, *map[string]string) != nil && fresh(*unbox(p, *map[string]string)) && forall k string :: !has(*unbox(p, *map[string]string), k)
  ensures [map-merge] isMap(p) && merging(flags) && mergeAsked(flags) ==> *unbox(p, *map[string]string) == old(*unbox(p, *map[string]string))
  ensures [self] selfReset(p) && !(merging(flags) && mergeAsked(flags)) ==> resets[p] == old(resets[p]) + 1
  ensures [self-merge] selfReset(p) && merging(flags) && mergeAsked(flags) ==> resets[p] == old(resets[p])

func (f *Flag).nextOccur()
  props C07
  requires f != nil && known(f.Value) && !typeis(f.Value, *Flag)
  modifies all
  nopanic
  ensures [count] f.count == old(f.count) + 1
  ensures [text] isText(old(f.Value)) && (if old(f.count) == 0 :: !merging(old(f.flags)) else !merging(old(f.flags))) ==> *unbox(old(f.Value), *string) == ""
  ensures [text-merge] isText(old(f.Value)) && (if old(f.count) == 0 :: merging(old(f.flags)) else merging(old(f.flags))) ==> *unbox(old(f.Value), *string) == old(*unbox(f.Value, *string))
  ensures [list] isList(old(f.Value)) && old(f.count) == 0 && !merging(old(f.flags)) ==> len(*unbox(old(f.Value), *[]string)) == 0
  ensures [list-kept] isList(old(f.Value)) && (merging(old(f.flags)) || !(old(f.count) == 0)) ==> *unbox(old(f.Value), *[]string) == old(*unbox(f.Value, *[]string))
  ensures [pairs] isPairs(old(f.Value)) && old(f.count) == 0 && !merging(old(f.flags)) ==> len(*unbox(old(f.Value), *[]*NameValue)) == 0
  ensures [pairs-kept] isPairs(old(f.Value)) && (merging(old(f.flags)) || !(old(f.count) == 0)) ==> *unbox(old(f.Value), *[]*NameValue) == old(*unbox(f.Value, *[]*NameValue))
  ensures [map] isMap(old(f.Value)) && old(f.count) == 0 && !merging(old(f.flags)) ==> forall k string :: !has(*unbox(old(f.Value), *map[string]string), k)
  ensures [map-kept] isMap(old(f.Value)) && (merging(old(f.flags)) || !(old(f.count) == 0)) ==> *unbox(old(f.Value), *map[string]string) == old(*unbox(f.Value, *map[string]string))
  ensures [self] selfReset(old(f.Value)) && !merging(old(f.flags)) ==> resets[old(f.Value)] == old(resets[f.Value]) + 1
  ensures [self-kept] selfReset(old(f.Value)) && (if old(f.count) == 0 :: merging(old(f.flags)) else merging(old(f.flags))) ==> resets[old(f.Value)] == old(resets[f.Value])

func (a *Arg).nextOccur()
  props C07
  requires a != nil && known(a.Value) && !typeis(a.Value, *Arg)
  modifies all
  nopanic
  ensures [count] a.count == old(a.count) + 1
  ensures [text] isText(old(a.Value)) && (if old(a.count) == 0 :: !(merging(old(a.flags)) && mergeAsked(old(a.flags))) else !merging(old(a.flags))) ==> *unbox(old(a.Value), *string) == ""
  ensures [text-merge] isText(old(a.Value)) && (if old(a.count) == 0 :: (merging(old(a.flags)) && mergeAsked(old(a.flags))) else merging(old(a.flags))) ==> *unbox(old(a.Value), *string) == old(*unbox(a.Value, *string))
  ensures [list] isList(old(a.Value)) && old(a.count) == 0 && !(merging(old(a.flags)) && mergeAsked(old(a.flags))) ==> len(*unbox(old(a.Value), *[]string)) == 0
  ensures [list-kept] isList(old(a.Value)) && ((merging(old(a.flags)) && mergeAsked(old(a.flags))) || !(old(a.count) == 0)) ==> *unbox(old(a.Value), *[]string) == old(*unbox(a.Value, *[]string))
  ensures [pairs] isPairs(old(a.Value)) && old(a.count) == 0 && !(merging(old(a.flags)) && mergeAsked(old(a.flags))) ==> len(*unbox(old(a.Value), *[]*NameValue)) == 0
  ensures [pairs-kept] isPairs(old(a.Value)) && ((merging(old(a.flags)) && mergeAsked(old(a.flags))) || !(old(a.count) == 0)) ==> *unbox(old(a.Value), *[]*NameValue) == old(*unbox(a.Value, *[]*NameValue))
  ensures [map] isMap(old(a.Value)) && old(a.count) == 0 && !(merging(old(a.flags)) && mergeAsked(old(a.flags))) ==> forall k string :: !has(*unbox(old(a.Value), *map[string]string), k)
  ensures [map-kept] isMap(old(a.Value)) && ((merging(old(a.flags)) && mergeAsked(old(a.flags))) || !(old(a.count) == 0)) ==> *unbox(old(a.Value), *map[string]string) == old(*unbox(a.Value, *map[string]string))
  ensures [self] selfReset(old(a.Value)) && !merging(old(a.flags)) ==> resets[old(a.Value)] == old(resets[a.Value]) + 1
  ensures [self-kept] selfReset(old(a.Value)) && (if old(a.count) == 0 :: (merging(old(a.flags)) && mergeAsked(old(a.flags))) else merging(old(a.flags))) ==> resets[old(a.Value)] == old(resets[a.Value])

func (f *Flag).Seen() (r)
  props C07
  requires f != nil
  nopanic
  ensures r <==> f.count > 0

func (a *Arg).Seen() (r)
  props C07
  requires a != nil
  nopanic
  ensures r <==> a.count > 0

func (f *Flag).Occurrences() (r)
  props C07
  requires f != nil
  nopanic
  ensures r == f.count

func (a *Arg).Occurrences() (r)
  props C07
  requires a != nil
  nopanic
  ensures r == a.count

// one occurrence is started, then each value is set in order until one is rejected
ghost occStarted int
ghost occSet int

assume option.nextOccur(self)
  why starting an occurrence (Flag.nextOccur, Arg.nextOccur) does not run user code that sets occurrences
  requires [first] occSet == 0
  effect occStarted = occStarted + 1

ghost occVals []string
assume option.Set(self, v) (err)
  why setting one value does not start or set another occurrence
  requires [C07] [in-order] occStarted == 1 && occSet < len(occVals) && typeis(v, string) && unbox(v, string) == occVals[occSet]
  effect occSet = occSet + 1

func optionSetOccurrence(o, values) (err)
  props C07
  requires o != nil
  enter occStarted = 0
  enter occSet = 0
  enter occVals = values
  modifies all
  nopanic
  ensures [once] occStarted == 1
  ensures [all] err == nil ==> occSet == len(values)
  inv [iter int ::] occSet == iter + 1
  inv occStarted == 1
  inv occVals == values
