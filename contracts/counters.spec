pkg .

// ---- C03: what each argument counter takes -------------------------------------------------

define isHard(e error) bool = !(typeis(e, argCountError)) || unbox(e, argCountError) < _argStartSoftErrors
define isEnd(e error) bool = typeis(e, argCountError) && unbox(e, argCountError) == EndOfArguments
define isCannot(e error) bool = typeis(e, argCountError) && unbox(e, argCountError) == argCannotUseFlag
define isExpected(e error) bool = typeis(e, *ParseError)
define looksFlag(s string, pf bool) bool = pf && s != "-" && prefixof("-", s)

func isHardArgCountErr(e) (r)
  props C01 C03 C04
  nopanic
  ensures r == isHard(e)

func allowFlag(arg, possibleFlag) (r)
  props C02 C03
  nopanic
  ensures r == looksFlag(arg, possibleFlag)

func (d *discreteCounter).Take(a, pf) (err)
  props C03
  requires d != nil
  modifies d.count
  nopanic
  ensures old(d.count) != 0 ==> err == nil && d.count == old(d.count) - 1
  ensures old(d.count) == 0 ==> isEnd(err) && d.count == 0
  ensures d.total == old(d.total)

func (d *discreteCounter).Done() (err)
  props C03 C04
  requires d != nil
  nopanic
  ensures (err == nil) <==> d.count <= 0
  ensures err != nil ==> isExpected(err)

func (d *defaultCounter).Take(a, pf) (err)
  props C03
  requires d != nil
  modifies d.seen
  nopanic
  ensures !old(d.seen) ==> err == nil
  ensures old(d.seen) ==> isEnd(err)
  ensures d.seen

func (d *defaultCounter).Done() (err)
  props C03 C04
  requires d != nil
  nopanic
  ensures (err == nil) <==> (d.seen || !d.requireSeen)
  ensures err != nil ==> isExpected(err)

func (v *varArgsCounter).Take(arg, pf) (err)
  props C03
  requires v != nil
  nopanic
  ensures err == nil <==> !(v.stopOnFlags && looksFlag(arg, pf))
  ensures err != nil && v.intersperse ==> isCannot(err)
  ensures err != nil && !v.intersperse ==> isEnd(err)

func (v *varArgsCounter).Done() (err)
  props C03
  nopanic
  ensures err == nil

assume field:matchesArgsCounter.fn(self, s) (r)
  why the predicate of an optional-argument counter is a pure function of the token
  pure
  ensures r == predOf(loc(self), s)
smtfun predOf(int, string) bool

func (o *matchesArgsCounter).Take(arg, pf) (err)
  props C03
  requires o != nil && o.fn != nil
  modifies o.count
  ensures err == nil <==> (predOf(loc(o.fn), arg) && old(o.count) < o.max)
  ensures err != nil ==> isEnd(err)
  ensures o.count == old(o.count) + 1

func (o *matchesArgsCounter).Done() (err)
  props C03
  nopanic
  ensures err == nil

func NoArgs() (r)
  props C03
  nopanic
  ensures typeis(r, *discreteCounter)
  ensures unbox(r, *discreteCounter) != nil && unbox(r, *discreteCounter).count == 0
  ensures fresh(r)

func OptionalArg(fn) (r)
  props C03
  nopanic
  ensures typeis(r, *matchesArgsCounter) && fresh(r)
  ensures unbox(r, *matchesArgsCounter).count == 0 && unbox(r, *matchesArgsCounter).max == 1
  ensures unbox(r, *matchesArgsCounter).fn != nil
  ensures fn != nil ==> unbox(r, *matchesArgsCounter).fn == fn

func ArgCount(v) (r)
  props C03
  requires !typeis(v, *Arg) && !typeis(v, *Flag)
  ensures implements(v, ArgCounter) ==> r == v
  ensures typeis(v, int) && unbox(v, int) > 0 ==> typeis(r, *discreteCounter) && fresh(r) \
     && unbox(r, *discreteCounter).count == unbox(v, int) && unbox(r, *discreteCounter).total == unbox(v, int)
  ensures typeis(v, int) && unbox(v, int) == 0 ==> typeis(r, *defaultCounter) && fresh(r) \
     && !unbox(r, *defaultCounter).seen && !unbox(r, *defaultCounter).requireSeen
  ensures typeis(v, int) && unbox(v, int) < 0 ==> typeis(r, *varArgsCounter) && fresh(r) \
     && (unbox(r, *varArgsCounter).stopOnFlags <==> (unbox(v, int) == -2 || unbox(v, int) == -3)) \
     && (unbox(r, *varArgsCounter).intersperse <==> unbox(v, int) == -3)
  ensures v == nil ==> typeis(r, *defaultCounter) && fresh(r) && !unbox(r, *defaultCounter).seen && !unbox(r, *defaultCounter).requireSeen
