pkg .

// ---- C01-C04: the raw parser ----------------------------------------------------------------
//
// The parser is specified as a protocol between reading a token (argList.pop, argList.take) and
// recording an occurrence (BindingMap.appendOutput). Ghost variables hold the token most recently
// read and whether it has been recorded.

ghost tokText string
ghost tokPending bool
ghost tokReads int
ghost tokTaken []string
ghost tokSkip bool
ghost tokInner bool
ghost tokFresh bool

smtfun definedName(Binding, string) bool

// What the parser assumes of a Binding (its documented role): a resolved alias and the positional
// names are names that the binding defines; a defined name has a counter.
assume Binding.ResolveAlias(self, name) (flag, ok)
  why a Binding resolves aliases only to names it defines
  pure
  ensures ok ==> definedName(self, flag) && flag != ""
  ensures [use:look] flag == aliasOf(self, name) && ok == aliasHas(self, name)

assume Binding.LookupOption(self, name) (tf, counter, state, ok)
  why a Binding looks up exactly the names it defines and gives each a counter and a state
  ensures ok <==> definedName(self, name)
  ensures ok ==> state != nil
  ensures [use:look] state == optOf(self, name) && ok == optHas(self, name)
  ensures ok ==> counter != nil && (typeis(counter, *discreteCounter) ==> unbox(counter, *discreteCounter) != nil)

assume Binding.PositionalArgNames(self) (names)
  pure
  why positional names are defined and not empty
  ensures forall i int :: 0 <= i && i < len(names) ==> definedName(self, names[i]) && names[i] != ""

assume Binding.BehaviorFlags(self, name) (optional)
  pure

// What the parser assumes of a counter, and what every counter of the module is proved to meet.
assume ArgCounter.Take(self, arg, possibleFlag) (err)
  why user-supplied counters keep to the convention of the module's own
  modifies field discreteCounter.count, field defaultCounter.seen, field matchesArgsCounter.count, field valuePairCounter.count
  ensures err == nil || isEnd(err) || (isCannot(err) && looksFlag(arg, possibleFlag))

assume ArgCounter.Done(self) (err)
  why user-supplied counters keep to the convention of the module's own
  ensures err == nil || (isParseErr(err) && len(unbox(err, *ParseError).Remaining) == 0)

define isParseErr(e error) bool = typeis(e, *ParseError) && unbox(e, *ParseError) != nil

func (a *argList) next() (r)
  props C01 C04
  requires a != nil
  modifies *a
  nopanic
  ensures r <==> len(old(*a)) > 0
  ensures r ==> loc(*a) == loc(old(*a)) && off(*a) == off(old(*a)) + 1 && len(*a) == len(old(*a)) - 1
  ensures !r ==> *a == old(*a)

func (a argList) current() (r)
  props C01 C04
  requires len(a) > 0
  nopanic
  ensures r == a[0]

func (a *argList) pop() (r)
  props C01 C04
  requires a != nil && len(*a) > 0
  requires tokInner || ((!tokPending || tokText == "--" || (tokSkip && tokReads == 1)) && !tokFresh)
  modifies *a
  nopanic
  ensures r == old((*a)[0])
  ensures loc(*a) == loc(old(*a)) && off(*a) == off(old(*a)) + 1 && len(*a) == len(old(*a)) - 1
  effect tokText = if tokInner :: tokText else r
  effect tokPending = if tokInner :: tokPending else true
  effect tokReads = tokReads + 1

func prepend(arg, args) (r)
  props C01 C04
  nopanic
  ensures len(r) == 1 + len(args) && r[0] == arg && fresh(r)
  ensures forall i int :: 1 <= i && i < len(r) ==> r[i] == args[i - 1]

define abWF(a *argBinding) bool = a != nil && len(a.names) == len(a.takers) && 0 <= a.index \
   && (forall i int :: 0 <= i && i < len(a.takers) ==> a.takers[i] != nil)
define abNames(b Binding, a *argBinding) bool = forall i int :: 0 <= i && i < len(a.names) ==> definedName(b, a.names[i]) && a.names[i] != ""
define remTail(r []string, args []string) bool = len(r) <= len(args) + 1 && (forall i int :: 1 <= i && i < len(r) ==> r[i] == args[len(args) - len(r) + i])

func newArgBinding(bind) (r)
  props C01 C04
  requires bind != nil
  nopanic
  ensures abWF(r) && r.index == 0 && fresh(r) && abNames(bind, r)
  ensures fresh(r.names) && fresh(r.takers)
  ensures [nonnil] forall i int :: 0 <= i && i < len(r.takers) && typeis(r.takers[i], *discreteCounter) ==> unbox(r.takers[i], *discreteCounter) != nil
  inv [i int, ns []string, ts []ArgCounter ::] forall j int :: 0 <= j && j <= i ==> ts[j] != nil && ns[j] != "" && definedName(bind, ns[j]) && (typeis(ts[j], *discreteCounter) ==> unbox(ts[j], *discreteCounter) != nil)

func newArgBindingSingle(name, taker) (r)
  props C01 C04
  requires taker != nil
  nopanic
  ensures abWF(r) && r.index == 0 && fresh(r) && len(r.takers) == 1 && r.takers[0] == taker && r.names[0] == name

func (a *argBinding) next() (r)
  props C03 C04
  requires a != nil && 0 <= a.index
  modifies a.index
  nopanic
  ensures a.index == old(a.index) + 1

func (a *argBinding) current() (r)
  props C03 C04
  requires abWF(a)
  nopanic
  ensures a.index < len(a.takers) ==> r == a.takers[a.index]
  ensures a.index >= len(a.takers) ==> r == nil

func (a *argBinding) Done() (err)
  props C03 C04
  requires abWF(a)
  nopanic
  ensures err == nil || (isParseErr(err) && len(unbox(err, *ParseError).Remaining) == 0)

func (a *argBinding) SetArg(arg, remainder, possibleFlag) (err)
  props C01 C03 C04
  requires abWF(a)
  modifies a.index, field discreteCounter.count, field defaultCounter.seen, field matchesArgsCounter.count, field valuePairCounter.count
  nopanic
  ensures abWF(a) && a.index >= old(a.index)
  ensures err == nil ==> a.index < len(a.takers)
  ensures err != nil ==> (isCannot(err) && looksFlag(arg, possibleFlag)) || (isParseErr(err) && a.index >= len(a.takers))
  ensures isParseErr(err) ==> unbox(err, *ParseError).Code == UnexpectedArgument && len(unbox(err, *ParseError).Remaining) == 1 + len(remainder) \
     && unbox(err, *ParseError).Remaining[0] == arg && fresh(err) \
     && (forall i int :: 0 <= i && i < len(remainder) ==> unbox(err, *ParseError).Remaining[1+i] == remainder[i])
  inv abWF(a) && a.index >= old(a.index)

func (a *argList) take(name, opt) (output, err)
  props C01 C03 C04
  requires a != nil && opt != nil
  enter tokInner = true
  modifies *a, field discreteCounter.count, field defaultCounter.seen, field matchesArgsCounter.count, field valuePairCounter.count, ghost tokReads
  nopanic
  ensures err == nil || isParseErr(err)
  ensures len(*a) <= len(old(*a)) && loc(*a) == loc(old(*a)) && off(*a) == off(old(*a)) + len(old(*a)) - len(*a)
  ensures tokReads == old(tokReads) + len(old(*a)) - len(*a)
  ensures [taken] err == nil ==> (len(*a) == len(old(*a)) && len(output) == 1 && output[0] == "") \
     || (len(output) == len(old(*a)) - len(*a) && (forall i int :: 0 <= i && i < len(output) ==> output[i] == old(*a)[i]))
  ensures fresh(output) && len(output) >= 0
  inv [o []string ::] len(o) == len(old(*a)) - len(*a) && (forall i int :: 0 <= i && i < len(o) ==> o[i] == old(*a)[i])
  inv [o []string ::] fresh(o)
  inv loc(*a) == loc(old(*a)) && off(*a) == off(old(*a)) + len(old(*a)) - len(*a) && len(*a) <= len(old(*a))
  inv tokReads == old(tokReads) + len(old(*a)) - len(*a)
  inv [b *argBinding ::] abWF(b) && fresh(b)
  inv tokText == old(tokText) && tokPending == old(tokPending) && tokInner
  effect tokTaken = output
  effect tokFresh = true

define recTaken(args []string) bool = tokFresh && len(args) == 1 + len(tokTaken) && (forall i int :: 0 <= i && i < len(tokTaken) ==> args[1+i] == tokTaken[i])
define recPositional(name string, args []string) bool = tokPending && !tokFresh && len(args) == 2 && args[0] == concat("<", name, ">") && args[1] == tokText
define recLongEq(args []string) bool = tokPending && !tokFresh && prefixof("--", tokText) && len(args) == 2 && tokText == concat(args[0], "=", args[1]) && !contains(args[0], "=")
define recLong(args []string) bool = tokPending && prefixof("--", tokText) && !contains(tokText, "=") && recTaken(args) \
   && (args[0] == tokText || (len(tokText) == 3 && args[0] == tokText[1:]))
define recShort(args []string) bool = prefixof("-", tokText) && !prefixof("--", tokText) && prefixof("-", args[0]) \
   && ((len(args) == 2 && !tokFresh && suffixof(args[1], tokText)) || recTaken(args))

define sepLists(m BindingMap) bool = (forall x string :: has(m, x) ==> allocated(m[x])) && (forall x string, y string :: x != y && has(m, x) && has(m, y) ==> loc(m[x]) != loc(m[y]))

func (m BindingMap) appendOutput(name, args) ()
  props C01 C05
  requires m != nil && sepLists(m)
  requires [record] recPositional(name, args) || recLongEq(args) || recLong(args) || recShort(args)
  modifies map m, m[name][*]
  nopanic
  ensures has(m, name) && len(m[name]) == (if old(has(m, name)) :: old(len(m[name])) + 1 else 1)
  ensures m[name][len(m[name])-1] == args
  ensures forall i int :: 0 <= i && i < len(m[name]) - 1 ==> m[name][i] == old(m[name][i])
  ensures forall n string :: n != name ==> (has(m, n) <==> old(has(m, n))) && m[n] == old(m[n])
  ensures [other] name != "" && old(has(m, "")) && old(len(m[""])) > 0 ==> m[""][0] == old(m[""][0])
  ensures sepLists(m)
  ensures [alloc] fresh(m[name]) || (old(has(m, name)) && loc(m[name]) == old(loc(m[name])))
  effect tokPending = false
  effect tokFresh = false

bv RawParseFlag

func RawParse(arguments, b, flags) (bindings, err)
  props C01 C02 C04
  opt paths 20000
  opt mirrors 6
  requires b != nil
  requires !tokPending && !tokFresh && !tokInner && tokReads == 0 && (tokSkip <==> (flags & RawSkipProgramName) == RawSkipProgramName)
  modifies field discreteCounter.count, field defaultCounter.seen, field matchesArgsCounter.count, field valuePairCounter.count, field ParseError.Name, field ParseError.Value, field ParseError.Remaining, ghost tokReads, ghost tokText, ghost tokPending, ghost tokTaken, ghost tokFresh
  nopanic
  ensures err == nil || isParseErr(err)
  ensures err != nil ==> remTail(unbox(err, *ParseError).Remaining, arguments)
  ensures bindings != nil && has(bindings, "") && len(bindings[""]) == 1 && bindings[""][0] == arguments
  ensures err == nil ==> tokReads == len(arguments) && (!tokPending || tokText == "--" || (tokSkip && tokReads == 1)) && !tokFresh
  ensures forall n string :: has(bindings, n) && n != "" ==> definedName(b, n)
  inv [a argList ::] loc(a) == loc(arguments) && off(a) + len(a) == off(arguments) + len(arguments) && len(a) <= len(arguments)
  inv [a argList ::] tokReads == len(arguments) - len(a)
  inv [p *argBinding ::] abWF(p)
  inv [p *argBinding ::] abNames(b, p)
  inv [m BindingMap ::] has(m, "") && len(m[""]) == 1 && m[""][0] == arguments
  inv [m BindingMap ::] sepLists(m) && fresh(m)
  inv [m BindingMap ::] forall n string :: has(m, n) ==> fresh(m[n])
  inv [m BindingMap ::] forall n string :: has(m, n) && n != "" ==> definedName(b, n)
  inv !tokFresh
  inv !tokInner
  inv [idle] !tokPending || tokText == "--" || (tokSkip && tokReads == 1)
  inv [cluster] prefixof("-", tokText) && !prefixof("--", tokText)
  inv [arg string ::] tokPending && tokText == arg
  inv [arg string ::] tokText == concat("-", arg)
  inv [iter int ::] tokPending ==> iter == 0
  inv [iter int ::] tokPending ==> iter == -1
