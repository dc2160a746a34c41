// ---- C17: validators reject exactly the violating uses -------------------------------------------------
pkg .

// the option of the context itself, or the nearest one of the name: a flag, else an arg
define ownName(name any) bool = name == nil || typeis(name, string) && unbox(name, string) == ""
define optionOf(c *Context, n string) = if nearestFlag(c, n) != nil :: box(nearestFlag(c, n)) else box(nearestArg(c, n))
define optionThere(c *Context, n string) = nearestFlag(c, n) != nil || nearestArg(c, n) != nil
define seenBy(c *Context, n string) = optionThere(c, n) && wasSeen(optionOf(c, n))
define wellFormed() = (forall x *Context :: x != nil && typeis(x.target, *Command) ==> unbox(x.target, *Command) != nil && forall i int :: 0 <= i && i < len(ctxFlags(x)) ==> ctxFlags(x)[i] != nil) && (forall x *Context, i int :: 0 <= i && i < len(localArgs(x)) ==> localArgs(x)[i] != nil)
func (c *Context) lookupOption(name) (o, ok)
  props C17
  requires c != nil
  requires name == nil || typeis(name, string) || typeis(name, *Flag) || typeis(name, *Arg) || typeis(name, int)
  requires [def] typeis(name, string) && unbox(name, string) != "" ==> definesNearest(unbox(name, string)) && definesNearestArg(unbox(name, string))
  requires wellFormed()
  modifies ghost tArgs, ghost tAOff, ghost tALen
  ensures [self] ownName(name) ==> (ok <==> implements(c.target, option)) && (ok ==> o == c.target)
  ensures [flag] typeis(name, *Flag) ==> (ok <==> unbox(name, *Flag) != nil) && o == name
  ensures [arg] typeis(name, *Arg) ==> (ok <==> unbox(name, *Arg) != nil) && o == name
  ensures [named] typeis(name, string) && unbox(name, string) != "" ==> (ok <==> optionThere(c, unbox(name, string))) && (ok ==> o == optionOf(c, unbox(name, string)))

func (c *Context) Seen(name) (r)
  props C17
  requires c != nil
  requires name == nil || typeis(name, string) || typeis(name, *Flag) || typeis(name, *Arg) || typeis(name, int)
  requires [def] typeis(name, string) && unbox(name, string) != "" ==> definesNearest(unbox(name, string)) && definesNearestArg(unbox(name, string))
  requires wellFormed()
  modifies ghost tArgs, ghost tAOff, ghost tALen
  ensures [self] ownName(name) ==> (r <==> implements(c.target, option) && wasSeen(c.target))
  ensures [flag] typeis(name, *Flag) ==> (r <==> unbox(name, *Flag) != nil && wasSeen(name))
  ensures [arg] typeis(name, *Arg) ==> (r <==> unbox(name, *Arg) != nil && wasSeen(name))
  ensures [named] typeis(name, string) && unbox(name, string) != "" ==> (r <==> seenBy(c, unbox(name, string)))

// a required option that was not given, and only that, is reported
assume target.contextName(self) (r)
  why the name the option is known by
inline expectedRequiredOption(name)
func checkForRequiredOption(c) (err)
  props C17
  requires c != nil && c.target != nil && isOption(c.target) && implements(c.target, option)
  requires wellFormed()
  modifies ghost tArgs, ghost tAOff, ghost tALen
  ensures [missing] flagsOf(c.target) & internalFlagRequired != 0 && !wasSeen(c.target) ==> typeis(err, *ParseError) && unbox(err, *ParseError) != nil && unbox(err, *ParseError).Code == ExpectedRequiredOption
  ensures [given] flagsOf(c.target) & internalFlagRequired == 0 || wasSeen(c.target) ==> err == nil

// every text has to be one of the values
func Enum$1(raw) (err)
  props C17
  ensures [accepts] (forall i int :: 0 <= i && i < len(raw) ==> has(*oset, raw[i])) ==> err == nil
  ensures [rejects] err == nil ==> forall i int :: 0 <= i && i < len(raw) ==> has(*oset, raw[i])
  inv [iter int ::] forall j int :: 0 <= j && j <= iter ==> has(*oset, raw[j])

func Enum(options) (r)
  props C17
  modifies ghost joinArr, ghost joinN, ghost joinOff
  ensures [local-set] forall s string :: has(*oset, s) <==> among(options, s)
  inv [iter int ::] forall s string :: has(*oset, s) <==> exists i int :: 0 <= i && i <= iter && options[i] == s

// the others that were given too make it fail
func Mutex$1(c) (err)
  props C17
  requires c != nil
  requires wellFormed()
  requires forall i int :: 0 <= i && i < len(*names) ==> (*names)[i] != ""
  modifies ghost tArgs, ghost tAOff, ghost tALen, ghost joinArr, ghost joinN, ghost joinOff
  ensures [alone] !(implements(c.target, option) && wasSeen(c.target)) ==> err == nil
  ensures [both] implements(c.target, option) && wasSeen(c.target) && (exists i int :: 0 <= i && i < len(*names) && seenBy(c, (*names)[i])) ==> err != nil
  ensures [only] implements(c.target, option) && wasSeen(c.target) && (forall i int :: 0 <= i && i < len(*names) ==> !seenBy(c, (*names)[i])) ==> err == nil
  inv *names == old(*names)
  inv forall i int :: 0 <= i && i < len(*names) ==> (*names)[i] == old((*names)[i])
  inv [alsoSeen []string, iter int ::] len(alsoSeen) > 0 <==> exists i int :: 0 <= i && i <= iter && seenBy(c, (*names)[i])

// a validator sees what was given, once, and its error is the error
ghost nChecked int
ghost checkedErr error
assume functype:ValidatorFunc(self, raw) (err)
  why the validator itself
  effect nChecked = nChecked + 1
  effect checkedErr = err
smtfun givenTexts(*Context) []string
assume (c *Context) RawOccurrences(name) (r)
  why what was given (BindingMap.RawOccurrences, proved in C05)
  ensures r == givenTexts(c)
func (v ValidatorFunc) Execute$1(c) (err)
  props C17
  requires c != nil && c.target != nil
  modifies all
  ensures [once] nChecked == old(nChecked) + 1
  ensures [verdict] err == nil <==> checkedErr == nil
inline argTakerError(name, value, err, remaining)
