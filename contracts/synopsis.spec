// ---- C19: the usage line -----------------------------------------------------------------------------
pkg github.com/Carbonfrost/joe-cli/internal/synopsis

// what has been written
ghost out string
assume styleWriter.WriteString(self, s) (n, err)
  why appends the text to what has been written
  effect out = concat(out, s)
assume styleWriter.Styled(self, st, v) (n, err)
  why appends the text, in the style, to what has been written
  requires len(v) == 1 && typeis(v[0], string)
  effect out = concat(out, unbox(v[0], string))

// how many values: 0 is optional, less than 0 or more than 1 is several; a counter says itself
smtfun usageOptional(argCounterUsage) bool
smtfun usageMulti(argCounterUsage) bool
assume argCounterUsage.Usage(self) (o, m)
  why what the counter says of itself
  pure
  ensures o == usageOptional(self) && m == usageMulti(self)
define saysUsage(v any) bool = v != nil && !typeis(v, int) && implements(v, argCounterUsage)
define isOptional(v any) bool = v == nil || typeis(v, int) && unbox(v, int) == 0 || saysUsage(v) && usageOptional(v)
define multiOf(v any) bool = typeis(v, int) && (unbox(v, int) < 0 || unbox(v, int) > 1) || saysUsage(v) && usageMulti(v)
func ArgCounter(narg) (o, m)
  props C19
  pure
  nopanic
  ensures [optional] o <==> isOptional(narg)
  ensures [several] m <==> multiOf(narg)

func NewArg(usage, narg) (a)
  props C19
  nopanic
  ensures fresh(a) && a.Value == usage && (a.Optional <==> isOptional(narg)) && (a.Multi <==> multiOf(narg))

define argSynText(a *Arg) string = if a.Multi :: concat(a.Value, "...") else a.Value
func (a *Arg) WriteTo(sb)
  props C19
  requires a != nil && sb != nil
  modifies ghost out
  ensures [text] out == concat(old(out), argSynText(a))

// the args: each required one after a blank, then, after a blank, the optional ones in brackets
smtfun reqText(string, []*Arg, int) string
smtfun optText(string, []*Arg, int) string
smtfun rtlText(string, []*Arg, int) string
smtfun rep(string, int) string
define reqs(l []*Arg) bool = (forall o string :: trigger(reqText(o, l, 0) == o, reqText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> reqText(o, l, i) == concat(reqText(o, l, i - 1), " ", argSynText(l[i - 1])), reqText(o, l, i))
define opts(l []*Arg) bool = (forall o string :: trigger(optText(o, l, 0) == o, optText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> optText(o, l, i) == concat(optText(o, l, i - 1), "[", argSynText(l[i - 1]), "]"), optText(o, l, i))
define rtls(l []*Arg) bool = (forall o string :: trigger(rtlText(o, l, 0) == o, rtlText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> rtlText(o, l, i) == concat(rtlText(o, l, i - 1), (if i == 1 :: rep("[", len(l)) else " "), argSynText(l[i - 1]), "]"), rtlText(o, l, i))
define argsText(o string, rtl bool, req []*Arg, opt []*Arg) string = if len(opt) == 0 :: reqText(o, req, len(req)) else (if rtl :: rtlText(concat(reqText(o, req, len(req)), " "), opt, len(opt)) else optText(concat(reqText(o, req, len(req)), " "), opt, len(opt)))
pkg strings
assume Repeat(s, n) (r)
  why the text as many times
  pure
  requires n >= 0
  ensures r == rep(s, n)
pkg github.com/Carbonfrost/joe-cli/internal/synopsis
func writeArgList(sb, rtl, req, opt)
  props C19
  requires sb != nil
  requires forall i int :: 0 <= i && i < len(req) ==> req[i] != nil
  requires forall i int :: 0 <= i && i < len(opt) ==> opt[i] != nil
  requires [def] reqs(req) && opts(opt) && rtls(opt)
  modifies ghost out
  ensures [args] out == argsText(old(out), rtl, req, opt)
  inv [iter int ::] out == reqText(old(out), req, iter + 1)
  inv [iter int ::] !rtl ==> out == optText(concat(reqText(old(out), req, len(req)), " "), opt, iter + 1)
  inv [iter int ::] rtl ==> out == rtlText(concat(reqText(old(out), req, len(req)), " "), opt, iter + 1)

// the flags of a group are reordered by name
smtfun place([]*Flag, int) int
assume sortedByName(flags)
  why sort.Slice puts the elements in another order; the order by name is only compared by the harness
  modifies flags[*]
  ensures forall i int :: 0 <= i && i < len(flags) ==> 0 <= place(flags, i) && place(flags, i) < len(flags) && flags[i] == old(flags[place(flags, i)])

// which args are optional: from right to left, the first optional one and all that follow it
smtfun before([]*Arg, bool, int) int
define counts(l []*Arg, o bool) bool = before(l, o, 0) == 0 && forall i int :: trigger(0 < i && i <= len(l) ==> before(l, o, i) == before(l, o, i - 1) + (if l[i - 1].Optional == o :: 1 else 0), before(l, o, i))
define split(l []*Arg, o bool, n int, r []*Arg) bool = len(r) == before(l, o, n) && forall i int :: 0 <= i && i < n && l[i].Optional == o ==> 0 <= before(l, o, i) && before(l, o, i) < len(r) && r[before(l, o, i)] == l[i]
func NewCommand(name, flags, args, rtl) (r)
  props C19
  requires forall i int :: 0 <= i && i < len(flags) ==> flags[i] != nil
  requires forall i int :: 0 <= i && i < len(args) ==> args[i] != nil
  requires [def] counts(args, true) && counts(args, false)
  ensures [it] fresh(r) && r.Name == name && r.Args == args && (r.RTL <==> rtl)
  ensures [rtl] rtl ==> len(r.RequiredArgs) + len(r.OptionalArgs) == len(args) && (forall i int :: 0 <= i && i < len(r.RequiredArgs) ==> r.RequiredArgs[i] == args[i] && !args[i].Optional) && (forall i int :: 0 <= i && i < len(r.OptionalArgs) ==> r.OptionalArgs[i] == args[len(r.RequiredArgs) + i]) && (len(r.OptionalArgs) > 0 ==> r.OptionalArgs[0].Optional)
  ensures [ltr] !rtl ==> split(args, false, len(args), r.RequiredArgs) && split(args, true, len(args), r.OptionalArgs)
  inv [iter int ::] rtl ==> forall j int :: 0 <= j && j <= iter ==> !args[j].Optional
  inv [required []*Arg, optional []*Arg, iter int ::] !rtl ==> split(args, false, iter + 1, required)
  inv [required []*Arg, optional []*Arg, iter int ::] !rtl ==> split(args, true, iter + 1, optional)
  inv [groups map[OptionGroup][]*Flag ::] forall g OptionGroup :: loc(groups[g]) != 0 ==> fresh(groups[g])
  inv [groups map[OptionGroup][]*Flag ::] forall g OptionGroup, h OptionGroup :: g != h && loc(groups[g]) != 0 && loc(groups[h]) != 0 ==> loc(groups[g]) != loc(groups[h])
  inv [groups map[OptionGroup][]*Flag, required []*Arg ::] forall g OptionGroup :: loc(groups[g]) != 0 && loc(required) != 0 ==> loc(groups[g]) != loc(required)
  inv [required []*Arg ::] loc(required) != 0 ==> fresh(required)
  inv [required []*Arg, optional []*Arg ::] loc(required) != 0 && loc(optional) != 0 ==> loc(optional) != loc(required)
  inv [optional []*Arg ::] loc(optional) != 0 ==> fresh(optional)
  inv [groups map[OptionGroup][]*Flag, optional []*Arg ::] forall g OptionGroup :: loc(groups[g]) != 0 && loc(optional) != 0 ==> loc(groups[g]) != loc(optional)
  inv [groups map[OptionGroup][]*Flag ::] forall g OptionGroup :: (loc(groups[g]) == 0 ==> len(groups[g]) == 0 && cap(groups[g]) == 0) && len(groups[g]) <= cap(groups[g]) && 0 <= off(groups[g])
  inv forall i int :: 0 <= i && i < len(args) ==> args[i] == old(args[i])
  inv forall i int :: 0 <= i && i < len(flags) ==> flags[i] == old(flags[i])
  inv [required []*Arg, optional []*Arg ::] (loc(required) == 0 ==> cap(required) == 0) && (loc(optional) == 0 ==> cap(optional) == 0)

// a flag: its name, the separator and the placeholder of its value
define valueText(v *Value) string = if v == nil :: "" else v.Placeholder
define flagText(f *Flag) string = concat(f.Primary, f.Separator, valueText(f.Value))
func (v *Value) WriteTo(w)
  props C19
  requires w != nil
  modifies ghost out
  ensures [text] out == concat(old(out), valueText(v))

func (f *Flag) primaryWriteTo(sb)
  props C19
  requires f != nil && sb != nil
  modifies ghost out
  ensures [text] out == concat(old(out), flagText(f))

// the usage line: the name, the flags that exit in braces, the short flags without a value together, the optional
// flags in brackets, the required ones, and the args
smtfun actsText(string, []*Flag, int) string
smtfun shortsText(string, []*Flag, int) string
smtfun optionalText(string, []*Flag, int) string
smtfun requiredText(string, []*Flag, int) string
define acts(l []*Flag) bool = (forall o string :: trigger(actsText(o, l, 0) == o, actsText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> actsText(o, l, i) == concat(actsText(o, l, i - 1), (if i == 1 :: "" else " | "), flagText(l[i - 1])), actsText(o, l, i))
define shorts(l []*Flag) bool = (forall o string :: trigger(shortsText(o, l, 0) == o, shortsText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> shortsText(o, l, i) == concat(shortsText(o, l, i - 1), l[i - 1].Short), shortsText(o, l, i))
define optionals(l []*Flag) bool = (forall o string :: trigger(optionalText(o, l, 0) == o, optionalText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> optionalText(o, l, i) == concat(optionalText(o, l, i - 1), " [", flagText(l[i - 1]), "]"), optionalText(o, l, i))
define requireds(l []*Flag) bool = (forall o string :: trigger(requiredText(o, l, 0) == o, requiredText(o, l, 0))) && forall o string, i int :: trigger(0 < i && i <= len(l) ==> requiredText(o, l, i) == concat(requiredText(o, l, i - 1), " ", flagText(l[i - 1])), requiredText(o, l, i))
smtfun grp(*Command, OptionGroup) []*Flag
smtfun line(string, *Command, int) string
define whole(c *Command, g OptionGroup) = len(grp(c, g))
// line(c, n): the line up to and with the nth group; grp(c, g): the flags of a group
define lines(o string, c *Command) bool = line(o, c, 0) == concat(o, c.Name) \
  && line(o, c, 1) == (if whole(c, ActionGroup) == 0 :: line(o, c, 0) else concat(actsText(concat(line(o, c, 0), " {"), grp(c, ActionGroup), whole(c, ActionGroup)), "}")) \
  && line(o, c, 2) == (if whole(c, OnlyShortNoValue) == 0 :: line(o, c, 1) else shortsText(concat(line(o, c, 1), " -"), grp(c, OnlyShortNoValue), whole(c, OnlyShortNoValue))) \
  && line(o, c, 3) == (if whole(c, OnlyShortNoValueOptional) == 0 :: line(o, c, 2) else concat(shortsText(concat(line(o, c, 2), " [-"), grp(c, OnlyShortNoValueOptional), whole(c, OnlyShortNoValueOptional)), "]")) \
  && line(o, c, 4) == optionalText(line(o, c, 3), grp(c, OtherOptional), whole(c, OtherOptional)) \
  && line(o, c, 5) == requiredText(line(o, c, 4), grp(c, Other), whole(c, Other))
func (c *Command) WriteTo(sb)
  props C19
  opt nocut yes
  requires c != nil && sb != nil
  requires forall i int :: 0 <= i && i < whole(c, ActionGroup) ==> grp(c, ActionGroup)[i] != nil
  requires forall i int :: 0 <= i && i < whole(c, OnlyShortNoValue) ==> grp(c, OnlyShortNoValue)[i] != nil
  requires forall i int :: 0 <= i && i < whole(c, OnlyShortNoValueOptional) ==> grp(c, OnlyShortNoValueOptional)[i] != nil
  requires forall i int :: 0 <= i && i < whole(c, OtherOptional) ==> grp(c, OtherOptional)[i] != nil
  requires forall i int :: 0 <= i && i < whole(c, Other) ==> grp(c, Other)[i] != nil
  requires forall i int :: 0 <= i && i < len(c.RequiredArgs) ==> c.RequiredArgs[i] != nil
  requires forall i int :: 0 <= i && i < len(c.OptionalArgs) ==> c.OptionalArgs[i] != nil
  requires [def] grp(c, ActionGroup) == c.Flags[ActionGroup] && grp(c, OnlyShortNoValue) == c.Flags[OnlyShortNoValue] && grp(c, OnlyShortNoValueOptional) == c.Flags[OnlyShortNoValueOptional] && grp(c, OtherOptional) == c.Flags[OtherOptional] && grp(c, Other) == c.Flags[Other]
  requires [def] acts(grp(c, ActionGroup)) && shorts(grp(c, OnlyShortNoValue)) && shorts(grp(c, OnlyShortNoValueOptional)) && optionals(grp(c, OtherOptional)) && requireds(grp(c, Other))
  requires [def] lines(out, c)
  requires [def] reqs(c.RequiredArgs) && opts(c.OptionalArgs) && rtls(c.OptionalArgs)
  modifies ghost out
  ensures [text] out == argsText(line(old(out), c, 5), c.RTL, c.RequiredArgs, c.OptionalArgs)
  inv [iter int ::] out == actsText(concat(line(old(out), c, 0), " {"), grp(c, ActionGroup), iter + 1)
  inv [iter int ::] out == shortsText(concat(line(old(out), c, 1), " -"), grp(c, OnlyShortNoValue), iter + 1)
  inv [iter int ::] out == shortsText(concat(line(old(out), c, 2), " [-"), grp(c, OnlyShortNoValueOptional), iter + 1)
  inv [iter int ::] out == optionalText(line(old(out), c, 3), grp(c, OtherOptional), iter + 1)
  inv [iter int ::] out == requiredText(line(old(out), c, 4), grp(c, Other), iter + 1)

pkg .
// the group of a flag: hidden, exits, short without a value (required or not), required, or optional
smtfun noValue(any) bool
assume impliesValueFlagOnly(p) (r)
  why whether the value is a bool, or says of itself that it is one
  pure
  ensures r <==> noValue(p)
define exitsFlag(f *Flag) bool = f.internalFlagsSupport.flags & internalFlagExits == internalFlagExits
define requiredFlag(f *Flag) bool = f.internalFlagsSupport.flags & internalFlagRequired == internalFlagRequired
func getGroup(f) (g)
  props C19
  nopanic
  requires f != nil
  ensures [hidden] hiddenFlag(f) ==> g == 5
  ensures [exits] !hiddenFlag(f) && exitsFlag(f) ==> g == 4
  ensures [short] !hiddenFlag(f) && !exitsFlag(f) && len(f.Name) == 1 && noValue(f.Value) ==> g == (if requiredFlag(f) :: 0 else 1)
  ensures [other] !hiddenFlag(f) && !exitsFlag(f) && !(len(f.Name) == 1 && noValue(f.Value)) ==> g == (if requiredFlag(f) :: 3 else 2)
