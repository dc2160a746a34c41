// ---- C16: errors carry the exit status that was asked for ----------------------------------------------
pkg fmt
smtfun sprint1(any) string
smtfun sprintN(gmap[int]any, int, int) string
smtfun sprintf1(string, any) string
smtfun sprintf2(string, any, any) string
assume Sprint(a) (r)
  why the operands as text, joined as documented; a function of the operands here
  ensures [use:sprint] len(a) == 1 ==> r == sprint1(a[0])
  ensures [use:sprint] r == sprintN(elems(a), off(a), len(a))
assume Sprintf(format, a) (r)
  why formats; a function of the format and operands here
  ensures [use:sprint] len(a) == 1 ==> r == sprintf1(format, a[0])
  ensures [use:sprint] len(a) == 2 ==> r == sprintf2(format, a[0], a[1])
pkg .

define defaulted(text string, code int) string = if text == "" :: sprintf1("exited with status %d", box(code)) else text
define exitsWith(r ExitCoder, text string, code int) = typeis(r, *exitError) && unbox(r, *exitError) != nil && unbox(r, *exitError).exitCode == code && typeis(unbox(r, *exitError).message, string) && unbox(unbox(r, *exitError).message, string) == defaulted(text, code)

func exitCore(message, code) (r)
  props C16
  opt use sprint
  pure
  nopanic
  ensures r != nil && exitsWith(r, message, code)

func Exit(message) (r)
  props C16
  opt use sprint
  nopanic
  ensures [none] len(message) == 0 ==> exitsWith(r, "", 1)
  ensures [code] len(message) == 1 && typeis(message[0], ErrorCode) ==> typeis(r, *ParseError) && unbox(r, *ParseError) != nil && unbox(r, *ParseError).Code == unbox(message[0], ErrorCode) && unbox(r, *ParseError).Err == nil
  ensures [coder] len(message) == 1 && implements(message[0], ExitCoder) ==> r == message[0]
  ensures [status] len(message) == 1 && typeis(message[0], int) ==> exitsWith(r, "", unbox(message[0], int))
  ensures [nil] len(message) == 1 && message[0] == nil ==> exitsWith(r, "", 1)
  ensures [text] len(message) == 1 && message[0] != nil && !typeis(message[0], int) && !typeis(message[0], ErrorCode) && !implements(message[0], ExitCoder) ==> exitsWith(r, sprint1(message[0]), 1)
  ensures [last-int] len(message) > 1 && typeis(message[len(message) - 1], int) ==> exitsWith(r, sprintN(elems(message), off(message), len(message) - 1), unbox(message[len(message) - 1], int))
  ensures [last-code] len(message) > 1 && typeis(message[len(message) - 1], ErrorCode) ==> typeis(r, *exitError) && unbox(r, *exitError) != nil && unbox(r, *exitError).exitCode == 2
  ensures [last-other] len(message) > 1 && !typeis(message[len(message) - 1], int) && !typeis(message[len(message) - 1], ErrorCode) ==> exitsWith(r, sprintN(elems(message), off(message), len(message)), 1)

func (e *ParseError) ExitCode() (r)
  props C16
  pure
  nopanic
  ensures r == 2

func (e *exitError) ExitCode() (r)
  props C16
  requires e != nil
  pure
  nopanic
  ensures r == e.exitCode

func (e *exitError) Error() (r)
  props C16
  opt use sprint
  requires e != nil
  nopanic
  ensures r == sprintf1("%v", e.message)

// what an error says, the status it asks for, and what the exit handler in use was told
smtfun errorText(any) string
smtfun statusOf(any) int
assume ExitCoder.ExitCode(self) (r)
  why the status the error asks for
  ensures r == statusOf(self)
ghost nExit int
ghost exitText string
ghost exitStatus int
ghost exitCtx *Context
assume functype:func_cli_Context_string_int_(self, c, message, status)
  why the handler in use: what it is told is what counts
  effect nExit = nExit + 1
  effect exitText = message
  effect exitStatus = status
  effect exitCtx = c

ghost printed int
ghost printedText string
ghost nOsExit int
ghost osStatus int
ghost printedBefore int
pkg fmt
assume Fprintln(w, a) (n, err)
  why writes the operands and a new line
  effect printed = printed + 1
  effect printedText = sprint1(a[0])
pkg .
assume functype:func_codeint_(self, status)
  why os.Exit
  effect nOsExit = nOsExit + 1
  effect osStatus = status
  effect printedBefore = printed

func defaultExitHandler(c, message, status)
  props C16
  requires c != nil
  modifies ghost printed, ghost printedText, ghost nOsExit, ghost osStatus, ghost printedBefore
  ensures [exits] nOsExit == old(nOsExit) + 1 && osStatus == status
  ensures [says] message != "" && status != 0 ==> printed == old(printed) + 1 && printedText == sprint1(box(message)) && printedBefore == printed
  ensures [quiet] message == "" || status == 0 ==> printed == old(printed)

func exit(c, err)
  props C16
  requires c != nil
  modifies ghost nExit, ghost exitText, ghost exitStatus, ghost exitCtx, ghost printed, ghost printedText, ghost nOsExit, ghost osStatus, ghost printedBefore
  ensures [success] err == nil ==> nExit == old(nExit) && nOsExit == old(nOsExit) && printed == old(printed)
  ensures [once] err != nil && ExitHandler != nil ==> nExit == old(nExit) + 1 && exitText == errtext(err) && nOsExit == old(nOsExit)
  ensures [own] err != nil && ExitHandler != nil && implements(err, ExitCoder) ==> exitStatus == statusOf(err)
  ensures [other] err != nil && ExitHandler != nil && !implements(err, ExitCoder) ==> exitStatus == 1
  ensures [default-once] err != nil && ExitHandler == nil ==> nOsExit == old(nOsExit) + 1 && nExit == old(nExit)
  ensures [default-own] err != nil && ExitHandler == nil && implements(err, ExitCoder) ==> osStatus == statusOf(err)
  ensures [default-other] err != nil && ExitHandler == nil && !implements(err, ExitCoder) ==> osStatus == 1
  ensures [default-says] err != nil && ExitHandler == nil && errtext(err) != "" && osStatus != 0 ==> printed == old(printed) + 1 && printedText == sprint1(box(errtext(err)))
  ensures [default-quiet] err != nil && ExitHandler == nil && (errtext(err) == "" || osStatus == 0) ==> printed == old(printed)
