// ---- C12: lifecycle order and timing -----------------------------------------------------------------
pkg .

// a is the timing at which an action registered for t really runs: the sub-stages of Before run in Before
define stageOf(t Timing) = if t > syntheticTiming :: BeforeTiming else t

smtfun actionOf(any) any
assume ActionOf(v) (r)
  why converting a value to an action (a type switch that only wraps it) runs nothing
  ensures r == actionOf(v)
  ensures r != nil

// the last action put off until later, where and for when
ghost put int
ghost putWhat any
ghost putWhen Timing
ghost putOn any
assume target.appendAction(self, t, a)
  why storing an action on its target runs nothing (pipelinesSupport.appendAction)
  effect put = put + 1
  effect putWhat = a
  effect putWhen = t
  effect putOn = self

// the one action that may be executed by the function under verification
ghost theAct any
ghost ranAct int
ghost ranErr error
assume (c *Context) internalError(err) (r)
  why builds an InternalError naming the path; runs nothing
  ensures r != nil

func (c *Context) act(v, desired, optional) (err)
  props C12
  requires c != nil && c.target != nil
  requires lN == 1 && nran == 0 && lO == 0 && lA[0] == actionOf(v) && lastErr == nil && !handed
  modifies ghost nran, ghost lastErr, ghost put, ghost putWhat, ghost putWhen, ghost putOn
  nopanic
  ensures [later-once] old(c.timing) < stageOf(desired) ==> err == nil && put == old(put) + 1 && putWhat == actionOf(v) && putWhen == desired && putOn == c.target && nran == 0
  ensures [now-once] old(c.timing) == stageOf(desired) ==> put == old(put) && nran == 1 && err == lastErr
  ensures [too-late] old(c.timing) > stageOf(desired) ==> put == old(put) && nran == 0 && (err == nil <==> optional)

func hasSeenImplied(f, parent) (r)
  props C12
  requires f != nil && parent != nil
  nopanic
  ensures [only-if-asked] r <==> (flagsOf(f) & internalFlagTriggerRequested != 0 || flagsOf(f) & internalFlagSeenImplied != 0 && (flagsOf(f) & internalFlagImpliedAction != 0 || flagsOf(parent) & internalFlagImpliedAction != 0))

smtfun flagsOf(any) internalFlags
smtfun wasSeen(any) bool
assume target.internalFlags(self) (r)
  why reads the bits (internalFlagsSupport.internalFlags)
  ensures r == flagsOf(self)
assume option.internalFlags(self) (r)
  why reads the bits (internalFlagsSupport.internalFlags)
  ensures r == flagsOf(self)
assume option.Seen(self) (r)
  why reads the occurrence count (Flag.Seen and Arg.Seen are proved in C07)
  ensures r == wasSeen(self)

func (c *Context) Parent() (r)
  props C12
  nopanic
  pure
  ensures r == (if c == nil :: nil else c.parent)

// The order in which a run visits the contexts above its start. vN visits have been made, vLast was visited
// last, vErr is the error of the last visit; vStart is where the run is.
ghost vN int
ghost vLast *Context
ghost vErr error
ghost vStart *Context
ghost vSelf any
ghost vAnc any

assume functype:func_cli_Context_context_Context_error(self, current, start) (err)
  why the steps of a stage (user actions and hooks) cannot re-parent a context (Context.parent is set only where a context is made) nor reach the local list of contexts; the obligation is the order of visits
  requires [C12] [start] start == vStart
  requires [C12] [go-on] vErr == nil
  requires [C12] [nearest-first] vDown || (vN == 0 && current == vStart && self == vSelf) || (vN > 0 && current == vLast.parent && self == vAnc)
  requires [C12] [root-first] !vDown || (vN < vLen && current == vLine[vOff + vLen - 1 - vN] && self == (if vN == vLen - 1 :: vSelf else vAnc))
  effect vN = vN + 1
  effect vLast = current
  effect vErr = err

ghost vDown bool
// the contexts from the one asked to the root
ghost vLine gmap[int]*Context
ghost vOff int
ghost vLen int

func (c *Context) Lineage() (r)
  props C12
  nopanic
  effect vLine = elems(r)
  effect vOff = off(r)
  effect vLen = len(r)
  ensures [from-self] c != nil ==> len(r) > 0 && r[0] == c
  ensures [parents] forall i int :: 0 < i && i < len(r) ==> r[i] == r[i-1].parent
  ensures [to-root] len(r) > 0 ==> r[len(r)-1].parent == nil
  ensures [none] c == nil ==> len(r) == 0
  inv [res []*Context, current *Context ::] len(res) == 0 ==> current == c
  inv [res []*Context, current *Context ::] len(res) > 0 ==> res[0] == c && current == res[len(res)-1].parent
  inv [res []*Context ::] forall i int :: 0 < i && i < len(res) ==> res[i] == res[i-1].parent
  inv [res []*Context ::] fresh(res)
  inv [res []*Context ::] len(res) > 0 ==> c != nil

func bubble(start, self, anc) (err)
  props C12
  requires start != nil && self != nil && anc != nil
  requires vN == 0 && vErr == nil && vStart == start && vSelf == self && vAnc == anc && !vDown
  modifies ghost vN, ghost vLast, ghost vErr
  ensures [result] err == vErr
  ensures [to-the-root] err == nil ==> vN > 0 && vLast.parent == nil
  inv vErr == nil
  inv [current *Context, fn func(*Context, context.Context) error ::] (vN == 0 && current == start && fn == self) || (vN > 0 && current == vLast.parent && fn == anc && vLast != nil)

func tunnel(start, self, anc) (err)
  props C12
  requires start != nil && self != nil && anc != nil
  requires vN == 0 && vErr == nil && vStart == start && vSelf == self && vAnc == anc && vDown
  modifies ghost vN, ghost vLast, ghost vErr, ghost vLine, ghost vOff, ghost vLen
  ensures [result] err == vErr
  ensures [to-the-start] err == nil ==> vN == vLen
  inv vErr == nil
  inv [i int ::] vN == vLen - 1 - i
  inv [fn func(*Context, context.Context) error, i int ::] fn == anc || i < 0

// options whose action runs: those given or implied when that was asked for; each option of the command is
// considered once, flags first
ghost tOff int
ghost tRun int
ghost tLast any
ghost tErr error
// how far the run is: 1 parsed, 2 Before done, 3 actions done, 4 After done
ghost stg int
ghost tFail error
ghost tFlags gmap[int]*Flag
ghost tFOff int
ghost tFLen int
ghost tArgs gmap[int]*Arg
ghost tAOff int
ghost tALen int

assume (c *Context) PersistentFlags() (r)
  why reads the flags of the enclosing commands
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] != nil
func (c *Context) usedFlag(f) (r)
  props C12
  requires c != nil && f != nil

assume (c *Context) LocalFlags() (r)
  why reads the declared flags; C14 and C18 are about which these are
  effect tFlags = elems(r)
  effect tFOff = off(r)
  effect tFLen = len(r)
  ensures [use:look] r == localFlagsOf(c)
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] != nil

assume (c *Context) LocalArgs() (r)
  why reads the declared args
  effect tArgs = elems(r)
  effect tAOff = off(r)
  effect tALen = len(r)
  ensures [use:look] r == localArgs(c)
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] != nil

func (c *Context) setTiming(t) (r)
  props C12
  requires c != nil
  modifies c.timing
  nopanic
  ensures r == c && c.timing == t

func (c *Context) copy(newTarget, t) (r)
  props C12
  requires c != nil
  nopanic
  ensures r != nil && fresh(r) && r.target == newTarget && r.parent == c

assume newLookupCore(t, parent) (r)
  why wraps the lookups (C14); runs nothing
assume newSet(bindings) (r)
  why makes an empty set; runs nothing
assume (v *valueTarget) lookup() (r)
  why reads the value's own lookup; runs nothing

func (c *Context) newChild(t) (r)
  props C12
  requires c != nil && t != nil
  ensures r != nil && fresh(r) && r.target == t && r.parent == c

assume (c *Context) executeSelf() (err)
  why runs the option's own action pipeline (C11); it cannot change the local lists of options
  effect tRun = tRun + 1
  effect tLast = c.target
  effect tErr = err
  effect stg = if stg == 2 && err == nil :: 3 else stg

func triggerOption(ctx, f) (err)
  props C12
  requires ctx != nil && ctx.target != nil && f != nil
  requires [in-order] (tOff < tFLen && typeis(f, *Flag) && unbox(f, *Flag) == tFlags[tFOff+tOff]) || (tOff >= tFLen && typeis(f, *Arg) && unbox(f, *Arg) == tArgs[tAOff+tOff-tFLen])
  requires [no-failure] tFail == nil
  effect tOff = tOff + 1
  effect tFail = err
  modifies ghost tRun, ghost stg, ghost tLast, ghost tErr
  ensures [given] (wasSeen(f) || flagsOf(f) & internalFlagTriggerRequested != 0 || flagsOf(f) & internalFlagSeenImplied != 0 && (flagsOf(f) & internalFlagImpliedAction != 0 || flagsOf(ctx.target) & internalFlagImpliedAction != 0)) ==> tRun == old(tRun) + 1 && tLast == f && err == tErr
  ensures [not-given] !(wasSeen(f) || flagsOf(f) & internalFlagTriggerRequested != 0 || flagsOf(f) & internalFlagSeenImplied != 0 && (flagsOf(f) & internalFlagImpliedAction != 0 || flagsOf(ctx.target) & internalFlagImpliedAction != 0)) ==> tRun == old(tRun) && err == nil

func triggerOptions(ctx) (err)
  props C12
  requires ctx != nil && ctx.target != nil && tOff == 0 && tFail == nil
  modifies ghost tRun, ghost stg, ghost tLast, ghost tErr, ghost tFail, ghost tOff, ghost tFlags, ghost tFOff, ghost tFLen, ghost tArgs, ghost tAOff, ghost tALen
  ensures [each-once] err == nil ==> tOff == tFLen + tALen
  ensures [result] tFail != nil ==> err == tFail
  inv tFail == nil
  inv [iter int ::] tOff == iter + 1
  inv [iter int ::] tOff == tFLen + iter + 1

assume (c *Context) parse(args) (r)
  why parsing (C01-C05)
  ensures r != nil
  effect stg = if r.err == nil :: 1 else 0
assume (c *Context) executeBefore() (err)
  why the Before stage (bubble, C11)
  requires [C12] [after-parsing] stg == 1
  effect stg = if err == nil :: 2 else 0
assume (c *Context) executeAfter() (err)
  why the After stage (tunnel, C11)
  requires [C12] [after-actions] stg == 3
  effect stg = if err == nil :: 4 else 0
assume provideCurrentApp(a) (f)
  why sets and restores the current app; runs nothing
  ensures f != nil
assume functype:func_(self)
  why the function that restores the current app
func (c *Context) Execute(args) (err)
  props C12
  requires c != nil
  modifies ghost tRun, ghost tLast, ghost tErr, ghost stg
  ensures [all-stages] err == nil <==> stg == 4
  ensures [parse-error] stg == 0 || stg == 1 || stg == 2 || stg == 4
