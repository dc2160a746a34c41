// ---- C14: names resolve to the nearest declared flag, arg or command ----------------------------------
pkg slices
assume Contains(s, v) (r)
  why whether v is among the elements of s
  ensures r <==> (exists i int :: 0 <= i && i < len(s) && s[i] == v)
pkg strings
assume TrimLeft(s, cutset) (r)
  why a function of its arguments (which characters it removes is compared with the documentation by the bounded stand-in)
  ensures r == trimLeft(s, cutset)
assume Trim(s, cutset) (r)
  why a function of its arguments (which characters it removes is compared with the documentation by the bounded stand-in)
  ensures r == trimBoth(s, cutset)
pkg .
smtfun trimLeft(string, string) string
smtfun trimBoth(string, string) string

define among(s []string, v string) bool = exists i int :: 0 <= i && i < len(s) && s[i] == v

// flags
define flagNamed(f *Flag, n string) = f.Name == n || among(f.Aliases, n)
define firstFlag(fs []*Flag, n string, i int) = 0 <= i && i < len(fs) && flagNamed(fs[i], n) && (forall j int :: 0 <= j && j < i ==> !flagNamed(fs[j], n))
define noFlag(fs []*Flag, n string) = forall j int :: 0 <= j && j < len(fs) ==> !flagNamed(fs[j], n)

func findFlagByName(items, v) (f, index, ok)
  props C14
  opt infer 300
  opt quick 700
  pure
  nopanic
  requires forall i int :: 0 <= i && i < len(items) ==> items[i] != nil
  requires typeis(v, *Flag) || typeis(v, string)
  ensures [missing] !ok ==> f == nil && index == -1
  ensures [first] typeis(v, string) && ok ==> firstFlag(items, trimLeft(unbox(v, string), "-"), index) && f == items[index]
  ensures [none] typeis(v, string) && !ok ==> noFlag(items, trimLeft(unbox(v, string), "-"))
  ensures [self] typeis(v, *Flag) && ok ==> f == unbox(v, *Flag) && 0 <= index && index < len(items) && items[index] == f
  ensures [not-self] typeis(v, *Flag) && !ok ==> forall i int :: 0 <= i && i < len(items) ==> items[i] != unbox(v, *Flag)
  inv [f *Flag, iter int ::] forall j int :: 0 <= j && j <= iter ==> items[j] != f
  inv [name string, iter int ::] forall j int :: 0 <= j && j <= iter ==> !flagNamed(items[j], name)

// args
define argText(n string) = if suffixof(">", stripLt(n)) :: substr(stripLt(n), 0, len(stripLt(n)) - 1) else stripLt(n)
define stripLt(n string) = if prefixof("<", n) :: substr(n, 1, len(n) - 1) else n
define argIndex(i int, n int) = if i < 0 :: n + i else i

func findArgByName(items, v) (a, index, ok)
  props C14
  opt infer 300
  opt quick 700
  pure
  nopanic
  requires forall i int :: 0 <= i && i < len(items) ==> items[i] != nil
  requires typeis(v, int) || typeis(v, string) || typeis(v, *Arg)
  ensures [missing] !ok ==> a == nil && index == -1
  ensures [position] typeis(v, int) ==> (ok <==> 0 <= argIndex(unbox(v, int), len(items)) && argIndex(unbox(v, int), len(items)) < len(items)) && (ok ==> index == argIndex(unbox(v, int), len(items)) && a == items[index])
  ensures [first] typeis(v, string) && ok ==> 0 <= index && index < len(items) && a == items[index] && a.Name == argText(unbox(v, string)) && forall j int :: 0 <= j && j < index ==> items[j].Name != argText(unbox(v, string))
  ensures [none] typeis(v, string) && !ok ==> forall j int :: 0 <= j && j < len(items) ==> items[j].Name != argText(unbox(v, string))
  ensures [self] typeis(v, *Arg) && ok ==> a == unbox(v, *Arg) && 0 <= index && index < len(items) && items[index] == a
  ensures [not-self] typeis(v, *Arg) && !ok ==> forall i int :: 0 <= i && i < len(items) ==> items[i] != unbox(v, *Arg)
  inv [iter int ::] typeis(v, string) ==> forall j int :: 0 <= j && j <= iter ==> items[j].Name != argText(unbox(v, string))
  inv [iter int ::] typeis(v, *Arg) ==> forall j int :: 0 <= j && j <= iter ==> items[j] != unbox(v, *Arg)

// commands
define cmdNamed(c *Command, n string) = c.Name == n || among(c.Aliases, n)
func findCommandByName(cmds, v) (c, index, ok)
  props C14
  opt infer 300
  opt quick 700
  pure
  nopanic
  requires forall i int :: 0 <= i && i < len(cmds) ==> cmds[i] != nil
  requires typeis(v, *Command) || typeis(v, string)
  ensures [missing] !ok ==> c == nil && index == -1
  ensures [first] typeis(v, string) && ok ==> 0 <= index && index < len(cmds) && c == cmds[index] && cmdNamed(c, unbox(v, string)) && forall j int :: 0 <= j && j < index ==> !cmdNamed(cmds[j], unbox(v, string))
  ensures [none] typeis(v, string) && !ok ==> forall j int :: 0 <= j && j < len(cmds) ==> !cmdNamed(cmds[j], unbox(v, string))
  ensures [self] typeis(v, *Command) && ok ==> c == unbox(v, *Command) && 0 <= index && index < len(cmds) && cmds[index] == c
  inv [cmd *Command, iter int ::] forall j int :: 0 <= j && j <= iter ==> cmds[j] != cmd
  inv [name string, iter int ::] forall j int :: 0 <= j && j <= iter ==> !cmdNamed(cmds[j], name)

// the nearest command that has such a flag
smtfun nearestFlag(*Context, string) *Flag
define ctxFlags(c *Context) = unbox(c.target, *Command).Flags
define definesNearest(n string) = nearestFlag(nil, n) == nil && forall x *Context :: trigger(x != nil ==> (if typeis(x.target, *Command) && !noFlag(ctxFlags(x), trimLeft(n, "-")) :: (forall i int :: firstFlag(ctxFlags(x), trimLeft(n, "-"), i) ==> nearestFlag(x, n) == ctxFlags(x)[i]) else nearestFlag(x, n) == nearestFlag(x.parent, n)), nearestFlag(x, n))
func (c *Context) LookupFlag(name) (f, ok)
  props C14
  nopanic
  requires typeis(name, string) || typeis(name, *Flag)
  requires typeis(name, string) ==> unbox(name, string) != "" && definesNearest(unbox(name, string))
  requires forall x *Context :: x != nil && typeis(x.target, *Command) ==> unbox(x.target, *Command) != nil && forall i int :: 0 <= i && i < len(ctxFlags(x)) ==> ctxFlags(x)[i] != nil
  ensures [self] c != nil && typeis(name, *Flag) ==> f == unbox(name, *Flag) && (ok <==> f != nil)
  ensures [nearest] typeis(name, string) ==> f == nearestFlag(c, unbox(name, string)) && (ok <==> f != nil)

smtfun localArgs(*Context) []*Arg
func (c *Context) logicalArg(index) (r)
  props C14
  opt use look
  modifies ghost tArgs, ghost tAOff, ghost tALen
  requires forall i int :: 0 <= i && i < len(localArgs(c)) ==> localArgs(c)[i] != nil
  nopanic
  ensures [position] 0 <= argIndex(index, len(localArgs(c))) && argIndex(index, len(localArgs(c))) < len(localArgs(c)) ==> r == localArgs(c)[argIndex(index, len(localArgs(c)))]
  ensures [out-of-range] argIndex(index, len(localArgs(c))) < 0 || argIndex(index, len(localArgs(c))) >= len(localArgs(c)) ==> r == nil

smtfun nearestArg(*Context, string) *Arg
define firstArg(as []*Arg, n string, i int) = 0 <= i && i < len(as) && as[i].Name == n && (forall j int :: 0 <= j && j < i ==> as[j].Name != n)
define noArg(as []*Arg, n string) = forall j int :: 0 <= j && j < len(as) ==> as[j].Name != n
define definesNearestArg(n string) = nearestArg(nil, n) == nil && forall x *Context :: trigger(x != nil ==> (if !noArg(localArgs(x), argText(n)) :: (forall i int :: firstArg(localArgs(x), argText(n), i) ==> nearestArg(x, n) == localArgs(x)[i]) else nearestArg(x, n) == nearestArg(x.parent, n)), nearestArg(x, n))
func (c *Context) LookupArg(name) (a, ok)
  props C14
  nopanic
  opt use look
  modifies ghost tArgs, ghost tAOff, ghost tALen
  requires typeis(name, string) || typeis(name, *Arg) || typeis(name, int)
  requires typeis(name, string) ==> unbox(name, string) != "" && definesNearestArg(unbox(name, string))
  requires forall x *Context, i int :: 0 <= i && i < len(localArgs(x)) ==> localArgs(x)[i] != nil
  ensures [self] c != nil && typeis(name, *Arg) ==> a == unbox(name, *Arg) && (ok <==> a != nil)
  ensures [position] c != nil && typeis(name, int) ==> (ok <==> 0 <= argIndex(unbox(name, int), len(localArgs(c))) && argIndex(unbox(name, int), len(localArgs(c))) < len(localArgs(c))) && (ok ==> a == localArgs(c)[argIndex(unbox(name, int), len(localArgs(c)))])
  ensures [nearest] typeis(name, string) ==> a == nearestArg(c, unbox(name, string)) && (ok <==> a != nil)

smtfun nearestCommand(*Context) *Command
define definesNearestCommand() = nearestCommand(nil) == nil && forall x *Context :: trigger(x != nil ==> nearestCommand(x) == (if typeis(x.target, *Command) :: unbox(x.target, *Command) else nearestCommand(x.parent)), nearestCommand(x))
func (c *Context) LookupCommand(name) (r, ok)
  props C14
  nopanic
  requires definesNearestCommand()
  requires c != nil && typeis(c.target, *Command) ==> forall i int :: 0 <= i && i < len(subs(c)) ==> subs(c)[i] != nil
  requires typeis(name, string) || typeis(name, *Command)
  requires c != nil ==> c.target != nil
  requires c != nil && typeis(c.target, *Command) ==> unbox(c.target, *Command) != nil
  ensures [none] c == nil ==> !ok && r == nil
  ensures [self] c != nil && typeis(name, *Command) ==> r == unbox(name, *Command) && (ok <==> r != nil)
  ensures [not-command] c != nil && typeis(name, string) && unbox(name, string) != "" && !typeis(c.target, *Command) ==> !ok && r == nil
  ensures [first] c != nil && typeis(name, string) && unbox(name, string) != "" && typeis(c.target, *Command) && ok ==> exists i int :: 0 <= i && i < len(subs(c)) && r == subs(c)[i] && cmdNamed(subs(c)[i], unbox(name, string)) && forall j int :: 0 <= j && j < i ==> !cmdNamed(subs(c)[j], unbox(name, string))
  ensures [missing] c != nil && typeis(name, string) && unbox(name, string) != "" && typeis(c.target, *Command) && !ok ==> forall j int :: 0 <= j && j < len(subs(c)) ==> !cmdNamed(subs(c)[j], unbox(name, string))
define subs(c *Context) = unbox(c.target, *Command).Subcommands

// the option, command the context is in
func (c *Context) Command() (r)
  props C14
  nopanic
  requires definesNearestCommand()
  ensures r == nearestCommand(c)
smtfun flagIn(*Context) *Flag
func (c *Context) Flag() (r)
  props C14
  requires flagIn(nil) == nil && forall x *Context :: trigger(x != nil ==> flagIn(x) == (if typeis(x.target, *Flag) :: unbox(x.target, *Flag) else flagIn(x.parent)), flagIn(x))
  ensures r == flagIn(c)
smtfun argIn(*Context) *Arg
func (c *Context) Arg() (r)
  props C14
  requires argIn(nil) == nil && forall x *Context :: trigger(x != nil ==> argIn(x) == (if typeis(x.target, *Arg) :: unbox(x.target, *Arg) else argIn(x.parent)), argIn(x))
  ensures r == argIn(c)

// values
smtfun lookVal(any, string) any
smtfun lookHas(any, string) bool
assume lookupCore.lookupValue(self, name) (v, ok)
  why what the values in scope hold for the name (parentLookup's and set's are proved below; a LookupFunc is the caller's)
  ensures v == lookVal(self, name) && ok == lookHas(self, name)

func (p *parentLookup) lookupValue(name) (v, ok)
  props C14
  requires p != nil && p.lookupCore != nil && p.parent != nil
  ensures [own] lookHas(p.lookupCore, name) ==> ok && v == lookVal(p.lookupCore, name)
  ensures [outer] !lookHas(p.lookupCore, name) ==> ok == lookHas(p.parent, name) && v == lookVal(p.parent, name)

func nameToString(name) (r)
  props C14
  pure
  requires name == nil || typeis(name, string) || typeis(name, rune) || typeis(name, *Arg) || typeis(name, *Flag)
  nopanic
  requires typeis(name, *Arg) ==> unbox(name, *Arg) != nil
  requires typeis(name, *Flag) ==> unbox(name, *Flag) != nil
  ensures [text] typeis(name, string) ==> r == unbox(name, string)
  ensures [nil] name == nil ==> r == ""
  ensures [arg] typeis(name, *Arg) ==> r == unbox(name, *Arg).Name
  ensures [flag] typeis(name, *Flag) ==> r == unbox(name, *Flag).Name

smtfun derefOf(any) any

func withoutDecorators(name) (r)
  props C14
  pure
  ensures r == trimBoth(name, "-<>")

func tryLookup(c, n, deref) (v, ok)
  props C14
  opt use deref
  requires n == nil || typeis(n, string) || typeis(n, rune) || typeis(n, *Arg) || typeis(n, *Flag)
  requires typeis(n, *Arg) ==> unbox(n, *Arg) != nil
  requires typeis(n, *Flag) ==> unbox(n, *Flag) != nil
  ensures [no-scope] c == nil ==> v == nil && !ok
  ensures [found] c != nil && typeis(n, string) && lookHas(c, trimBoth(unbox(n, string), "-<>")) ==> ok && v == (if deref :: derefOf(lookVal(c, trimBoth(unbox(n, string), "-<>"))) else lookVal(c, trimBoth(unbox(n, string), "-<>")))
  ensures [not-found] c != nil && typeis(n, string) && !lookHas(c, trimBoth(unbox(n, string), "-<>")) ==> v == nil && !ok
  ensures [flag] c != nil && typeis(n, *Flag) ==> ok == lookHas(c, trimBoth(unbox(n, *Flag).Name, "-<>"))
  ensures [arg] c != nil && typeis(n, *Arg) ==> ok == lookHas(c, trimBoth(unbox(n, *Arg).Name, "-<>"))

func (b *bindingImpl) LookupOption(name) (tf, ac, bs, ok)
  props C14
  requires b != nil
  requires forall s string :: has(b.names, s) ==> b.names[s] != nil
  ensures [declared] ok <==> has(b.names, name)
  ensures [option] ok ==> bs == b.names[name]
assume option.transformFunc(self) (r)
  why a field of the option
assume option.actualArgCounter(self) (r)
  why the counter of the option (C03)

func (b *bindingImpl) ResolveAlias(name) (r, ok)
  props C14
  pure
  nopanic
  requires b != nil
  ensures [name] has(b.names, name) ==> ok && r == name
  ensures [short] !has(b.names, name) && len(name) == 1 ==> ok == has(b.shortOptions, name) && (ok ==> r == b.shortOptions[name])
  ensures [long] !has(b.names, name) && len(name) != 1 ==> ok == has(b.longOptions, name) && (ok ==> r == b.longOptions[name])

// the value a name stands for is that of the option parsing resolves it to
smtfun aliasOf(any, string) string
smtfun aliasHas(any, string) bool
smtfun optOf(any, string) any
smtfun optHas(any, string) bool
smtfun valueOf(any) any
assume option.value(self) (r)
  why the destination of the option
  ensures r == valueOf(self)
define resolved(b any, n string) = if aliasHas(b, n) :: aliasOf(b, n) else n
func (s *set) lookupValue(name) (v, ok)
  props C14
  opt use look
  requires s != nil && isOption(optOf(s.Binding, resolved(s.Binding, name)))
  ensures [nothing] s.Binding == nil || !optHas(s.Binding, resolved(s.Binding, name)) ==> v == nil && !ok
  ensures [value] s.Binding != nil && optHas(s.Binding, resolved(s.Binding, name)) ==> ok && v == valueOf(optOf(s.Binding, resolved(s.Binding, name)))
