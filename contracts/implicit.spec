// ---- C13: explicit values win over environment, then file, then default ------------------------------
pkg .

smtfun envVal(string) string
smtfun envName(string, string) string

pkg os
assume Getenv(key) (r)
  why the value of an environment variable does not change while one option is set up
  ensures r == envVal(key)
pkg .

assume expandEnvVarName(content, name) (r)
  why a function of its arguments only (it replaces {} by the name); compared with the documentation by the bounded stand-in
  ensures r == envName(content, name)
assume flagScreamingSnakeCase(o) (r)
  why a function of the option's name only; compared with the documentation by the bounded stand-in
  ensures r == screaming(o)
smtfun screaming(any) string

// the values given to the current option without occurrence
ghost nSet int
ghost lastSet any
func (c *Context) ImplicitlySet() (r)
  props C13
  requires c != nil && c.target != nil
  ensures r <==> flagsOf(c.target) & internalFlagSeenImplied != 0

assume (c *Context) implicitTimingActive() (r)
  why whether an implicit value is being computed for the option or one around it
  ensures r == implicitNow(c)
smtfun implicitNow(*Context) bool
ghost marked gmap[any]bool
assume target.setInternalFlags(self, f, on)
  why sets the bits (internalFlagsSupport.setInternalFlags, proved in C10)
  effect marked = if f == internalFlagSeenImplied && on :: store(marked, self, true) else marked

ghost nReset int
assume option.reset(self)
  why what a first occurrence does to the default (optionReset, proved in C07)
  effect nReset = nReset + 1

// a second implicit value is refused and changes nothing
func (c *Context) SetValue(arg) (err)
  props C13
  requires c != nil && c.target != nil && isOption(c.target)
  modifies ghost occSet, ghost marked, ghost nReset
  effect nSet = nSet + 1
  effect lastSet = arg
  ensures [first-wins] implicitNow(c) && flagsOf(c.target) & internalFlagSeenImplied != 0 ==> err == ErrImplicitValueAlreadySet && occSet == old(occSet) && nReset == old(nReset)
  ensures [marks] implicitNow(c) && flagsOf(c.target) & internalFlagSeenImplied == 0 ==> occSet == old(occSet) + 1 && nReset == old(nReset) + 1 && marked[c.target]
  ensures [sets] !implicitNow(c) ==> occSet == old(occSet) + 1 && nReset == old(nReset) && marked == old(marked)
define isOption(t any) = typeis(t, *Flag) || typeis(t, *Arg)

assume (c *Context) option() (r)
  why the option the context is for
  ensures r == c.target

// a variable that counts: the first with a text
define firstEnv(vs []string, o any, k int) = 0 <= k && k < len(vs) && envVal(envName(vs[k], screaming(o))) != "" && (forall j int :: 0 <= j && j < k ==> envVal(envName(vs[j], screaming(o))) == "")

func FromEnv$1(c) (err)
  props C13
  requires c != nil && c.target != nil && isOption(c.target)
  modifies ghost nSet, ghost lastSet, ghost occSet, ghost marked, ghost nReset
  ensures [kept] flagsOf(c.target) & internalFlagSeenImplied != 0 ==> nSet == old(nSet)
  ensures [first] flagsOf(c.target) & internalFlagSeenImplied == 0 ==> forall k int :: firstEnv(*vars, c.target, k) ==> nSet == old(nSet) + 1 && typeis(lastSet, string) && unbox(lastSet, string) == envVal(envName((*vars)[k], screaming(c.target)))
  ensures [none] (forall k int :: 0 <= k && k < len(*vars) ==> envVal(envName((*vars)[k], screaming(c.target))) == "") ==> nSet == old(nSet)
  ensures [ok] err == nil
  inv [iter int ::] forall j int :: 0 <= j && j <= iter ==> envVal(envName((*vars)[j], screaming(c.target))) == ""
  inv nSet == old(nSet)

pkg io/fs
ghost fsRead int
ghost fsName string
ghost fsErr error
ghost fsData string
assume ReadFile(fsys, name) (data, err)
  why reads a file and changes nothing
  effect fsRead = fsRead + 1
  effect fsName = name
  effect fsErr = err
  effect fsData = string(data)
pkg .
assume (c *Context) actualFS() (r)
  why the file system in use
  ensures r != nil

func FromFilePath$1(c) (err)
  props C13
  requires c != nil && c.target != nil && isOption(c.target)
  modifies ghost nSet, ghost lastSet, ghost occSet, ghost marked, ghost nReset, ghost fsRead, ghost fsName, ghost fsErr, ghost fsData
  ensures [kept] flagsOf(c.target) & internalFlagSeenImplied != 0 || *filePath == "" ==> nSet == old(nSet) && fsRead == old(fsRead)
  ensures [file] flagsOf(c.target) & internalFlagSeenImplied == 0 && *filePath != "" ==> fsRead == old(fsRead) + 1 && fsName == *filePath && (if fsErr == nil :: nSet == old(nSet) + 1 && typeis(lastSet, string) && unbox(lastSet, string) == fsData else nSet == old(nSet))
  ensures [ok] err == nil

assume (c *Context) Occurrences(name) (r)
  why how often the option occurred on the command line (C07)
  ensures r == occurrences(c, name)
smtfun occurrences(*Context, any) int
assume FromContext(c) (r)
  why the context carried by c
  ensures (c != nil ==> r != nil) && r == ctxOf(c)
smtfun ctxOf(any) *Context

// implicit values are not even computed for an option that was given
func Implicitly$1(c) (err)
  props C13
  requires lN == 1 && nran == 0 && lO == 0 && lA[0] == *a && lastErr == nil && !handed
  modifies ghost nran, ghost lastErr, ghost handed
  ensures [explicit-wins] occurrences(ctxOf(c), "") != 0 ==> nran == 0 && err == nil
  ensures [implicit] occurrences(ctxOf(c), "") == 0 && *a != nil ==> nran == 1

smtfun impliedText(*Context) string
smtfun impliedHas(*Context) bool
assume functype:func_cli_Context_string_bool_(self, c) (v, ok)
  why the function that computes the implicit value; a function of the context here
  ensures v == impliedText(c) && ok == impliedHas(c)

func ImplicitValue$1(c) (err)
  props C13
  requires c != nil && c.target != nil && isOption(c.target)
  modifies ghost nSet, ghost lastSet, ghost occSet, ghost marked, ghost nReset
  ensures [has] impliedHas(c) ==> nSet == old(nSet) + 1 && typeis(lastSet, string) && unbox(lastSet, string) == impliedText(c)
  ensures [has-not] !impliedHas(c) ==> nSet == old(nSet)
  ensures [ok] err == nil

// implied only if the other flag is itself on the command line
func Implies$1$1(ctx) (r, ok)
  props C13
  pure
  ensures [given] occurrences(*c, "") != 0 ==> ok && r == *value
  ensures [not-given] occurrences(*c, "") == 0 ==> !ok
