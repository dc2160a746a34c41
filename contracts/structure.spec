// ---- C18: structure checks: duplicate names and visibility ---------------------------------------------
pkg .
smtfun visibleBefore([]*Arg, int) int
smtfun visibleFlagsBefore([]*Flag, int) int
smtfun visibleSubsBefore([]*Command, int) int
define hiddenArg(a *Arg) bool = a.internalFlagsSupport.flags & internalFlagHidden != 0
define hiddenFlag(a *Flag) bool = a.internalFlagsSupport.flags & internalFlagHidden != 0
define hiddenCmd(a *Command) bool = a.internalFlagsSupport.flags & internalFlagHidden != 0
define countsArgs(s []*Arg) = visibleBefore(s, 0) == 0 && forall k int :: 0 <= k && k < len(s) ==> visibleBefore(s, k + 1) == visibleBefore(s, k) + (if hiddenArg(s[k]) :: 0 else 1)
define countsFlags(s []*Flag) = visibleFlagsBefore(s, 0) == 0 && forall k int :: 0 <= k && k < len(s) ==> visibleFlagsBefore(s, k + 1) == visibleFlagsBefore(s, k) + (if hiddenFlag(s[k]) :: 0 else 1)
define countsSubs(s []*Command) = visibleSubsBefore(s, 0) == 0 && forall k int :: 0 <= k && k < len(s) ==> visibleSubsBefore(s, k + 1) == visibleSubsBefore(s, k) + (if hiddenCmd(s[k]) :: 0 else 1)

func (c *Command) VisibleArgs() (r)
  props C18
  nopanic
  requires c != nil && forall i int :: 0 <= i && i < len(c.Args) ==> c.Args[i] != nil
  requires [def] countsArgs(c.Args)
  ensures [all] len(r) == visibleBefore(c.Args, len(c.Args))
  ensures [in-order] forall i int :: 0 <= i && i < len(c.Args) && !hiddenArg(c.Args[i]) ==> 0 <= visibleBefore(c.Args, i) && visibleBefore(c.Args, i) < len(r) && r[visibleBefore(c.Args, i)] == c.Args[i]
  inv [res []*Arg, iter int ::] len(res) == visibleBefore(c.Args, iter + 1)
  inv [res []*Arg, iter int ::] forall j int :: 0 <= j && j <= iter && !hiddenArg(c.Args[j]) ==> 0 <= visibleBefore(c.Args, j) && visibleBefore(c.Args, j) < len(res) && res[visibleBefore(c.Args, j)] == c.Args[j]

func (c *Command) VisibleSubcommands() (r)
  props C18
  nopanic
  requires c != nil && forall i int :: 0 <= i && i < len(c.Subcommands) ==> c.Subcommands[i] != nil
  requires [def] countsSubs(c.Subcommands)
  ensures [all] len(r) == visibleSubsBefore(c.Subcommands, len(c.Subcommands))
  ensures [in-order] forall i int :: 0 <= i && i < len(c.Subcommands) && !hiddenCmd(c.Subcommands[i]) ==> 0 <= visibleSubsBefore(c.Subcommands, i) && visibleSubsBefore(c.Subcommands, i) < len(r) && r[visibleSubsBefore(c.Subcommands, i)] == c.Subcommands[i]
  inv [res []*Command, iter int ::] len(res) == visibleSubsBefore(c.Subcommands, iter + 1)
  inv [res []*Command, iter int ::] forall j int :: 0 <= j && j <= iter && !hiddenCmd(c.Subcommands[j]) ==> 0 <= visibleSubsBefore(c.Subcommands, j) && visibleSubsBefore(c.Subcommands, j) < len(res) && res[visibleSubsBefore(c.Subcommands, j)] == c.Subcommands[j]

func filterInVisibleFlags(flags) (r)
  props C18
  opt use clone
  requires forall i int :: 0 <= i && i < len(flags) ==> flags[i] != nil
  requires [def] countsFlags(flags)
  ensures [all] len(r) == visibleFlagsBefore(flags, len(flags))
  ensures [in-order] forall i int :: 0 <= i && i < len(flags) && !hiddenFlag(flags[i]) ==> 0 <= visibleFlagsBefore(flags, i) && visibleFlagsBefore(flags, i) < len(r) && r[visibleFlagsBefore(flags, i)] == flags[i]

// the standard library removes those for which its second operand holds, and that is for the hidden ones
func filterInVisibleFlags$1(f) (r)
  props C18
  requires f != nil
  pure
  nopanic
  ensures r <==> hiddenFlag(f)
pkg slices
assume Clone(s) (r)
  why a new slice with the same elements
  ensures [use:clone] fresh(r) && len(r) == len(s) && forall i int :: 0 <= i && i < len(s) ==> r[i] == s[i]
  ensures [use:clone] forall i int :: trigger(visibleFlagsBefore(r, i) == visibleFlagsBefore(s, i), visibleFlagsBefore(r, i))
assume DeleteFunc(s, del) (r)
  why removes the elements for which del holds, in place, and keeps the order of the others; del is filterInVisibleFlags$1, proved to hold for hidden flags
  modifies s[*]
  ensures [use:clone] len(r) == visibleFlagsBefore(s, len(s))
  ensures [use:clone] forall i int :: 0 <= i && i < len(s) && !hiddenFlag(old(s[i])) ==> 0 <= visibleFlagsBefore(s, i) && visibleFlagsBefore(s, i) < len(r) && r[visibleFlagsBefore(s, i)] == old(s[i])
pkg .

func (c *Command) VisibleFlags() (r)
  props C18
  requires c != nil && forall i int :: 0 <= i && i < len(c.Flags) ==> c.Flags[i] != nil
  requires [def] countsFlags(c.Flags)
  ensures [all] len(r) == visibleFlagsBefore(c.Flags, len(c.Flags))
  ensures [in-order] forall i int :: 0 <= i && i < len(c.Flags) && !hiddenFlag(c.Flags[i]) ==> 0 <= visibleFlagsBefore(c.Flags, i) && visibleFlagsBefore(c.Flags, i) < len(r) && r[visibleFlagsBefore(c.Flags, i)] == c.Flags[i]

// names
pkg regexp
smtfun rxMatches(*Regexp, string) bool
assume (re *Regexp) MatchString(s) (r)
  why whether the text matches the expression
  pure
  ensures r == rxMatches(re, s)
pkg .
smtfun localFlagsOf(*Context) []*Flag
define badFlag(f *Flag) bool = f.Name == "" || !rxMatches(validIdentifierPattern, f.Name)
define argName(c *Context, i int) = old(localArgs(c)[i].Name)
define flagName(c *Context, i int) = old(localFlagsOf(c)[i].Name)
define sameArgs(c *Context, n int, i int, j int) bool = 0 <= i && i < j && j < n && argName(c, i) != "" && argName(c, i) == argName(c, j)
define sameFlags(c *Context, n int, i int, j int) bool = 0 <= i && i < j && j < n && flagName(c, i) != "" && flagName(c, i) == flagName(c, j)
define sameBoth(c *Context, n int, i int, j int) bool = 0 <= i && i < len(localArgs(c)) && 0 <= j && j < n && argName(c, i) != "" && argName(c, i) == flagName(c, j)
define bad(c *Context, n int, i int) bool = 0 <= i && i < n && badFlag(localFlagsOf(c)[i])
define argsFine(c *Context) bool = forall i int, j int :: !sameArgs(c, len(localArgs(c)), i, j)
define allFine(c *Context) bool = argsFine(c) && (forall i int, j int :: !sameFlags(c, len(localFlagsOf(c)), i, j)) && (forall i int, j int :: !sameBoth(c, len(localFlagsOf(c)), i, j)) && (forall i int :: !bad(c, len(localFlagsOf(c)), i))
// any two positions: nothing changes or is known about them
ghost anyI int
ghost anyJ int
// names of args that are not given one are made up and do not count
func finalizeArgsAndFlags(c) (err)
  props C18
  opt use look
  requires c != nil
  requires forall i int :: 0 <= i && i < len(localArgs(c)) ==> localArgs(c)[i] != nil
  requires forall i int :: 0 <= i && i < len(localFlagsOf(c)) ==> localFlagsOf(c)[i] != nil
  requires forall i int, j int :: 0 <= i && i < j && j < len(localArgs(c)) ==> localArgs(c)[i] != localArgs(c)[j]
  modifies all
  ensures [same-args] sameArgs(c, len(localArgs(c)), anyI, anyJ) ==> err != nil
  ensures [same-flags] sameFlags(c, len(localFlagsOf(c)), anyI, anyJ) ==> err != nil
  ensures [same-both] sameBoth(c, len(localFlagsOf(c)), anyI, anyJ) ==> err != nil
  ensures [bad-flag] bad(c, len(localFlagsOf(c)), anyI) ==> err != nil
  ensures [fine] allFine(c) ==> err == nil
  inv [iter int ::] forall j int :: iter < j && j < len(localArgs(c)) ==> localArgs(c)[j].Name == argName(c, j)
  inv [errs []error, iter int ::] sameArgs(c, iter + 1, anyI, anyJ) ==> len(errs) > 0
  inv [errs []error ::] sameArgs(c, len(localArgs(c)), anyI, anyJ) ==> len(errs) > 0
  inv [errs []error ::] allFine(c) ==> len(errs) == 0
  inv [names map[string]bool, iter int ::] 0 <= anyI && anyI <= iter && argName(c, anyI) != "" ==> names[argName(c, anyI)]
  inv [names map[string]bool, iter int ::] argsFine(c) ==> forall i int :: iter < i && i < len(localArgs(c)) && argName(c, i) != "" ==> !names[argName(c, i)]
  inv [names map[string]bool, iter int ::] allFine(c) ==> forall i int :: iter < i && i < len(localFlagsOf(c)) ==> !names[flagName(c, i)]
  inv [names map[string]bool ::] allFine(c) ==> forall i int :: 0 <= i && i < len(localFlagsOf(c)) ==> !names[flagName(c, i)]
  inv [names map[string]bool, iter int ::] 0 <= anyI && anyI <= iter && flagName(c, anyI) != "" ==> names[flagName(c, anyI)]
  inv [names map[string]bool ::] 0 <= anyI && anyI < len(localArgs(c)) && argName(c, anyI) != "" ==> names[argName(c, anyI)]
  inv [errs []error, iter int ::] sameFlags(c, iter + 1, anyI, anyJ) ==> len(errs) > 0
  inv [errs []error, iter int ::] sameBoth(c, iter + 1, anyI, anyJ) ==> len(errs) > 0
  inv [errs []error, iter int ::] bad(c, iter + 1, anyI) ==> len(errs) > 0

// the group of a category, if there is one
func (c commandsByCategory) Category(name) (r)
  props C18
  nopanic
  requires forall i int :: 0 <= i && i < len(c) ==> c[i] != nil
  ensures [it] r != nil ==> r.Category == name && exists i int :: 0 <= i && i < len(c) && c[i] == r
  ensures [none] r == nil ==> forall i int :: 0 <= i && i < len(c) ==> c[i].Category != name
  inv [iter int ::] forall j int :: 0 <= j && j <= iter ==> c[j].Category != name
