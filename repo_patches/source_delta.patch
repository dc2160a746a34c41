From 81a51b2f39812c33b9f53ab2dfb7b8edba99164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 01/31] fix: lone dash without a positional argument to take it
 is an error instead of a panic

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index daf8bb5..225cbd6 100644
--- a/set.go
+++ b/set.go
@@ -235,7 +235,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if allowFlag(arg, state == flagsOrArgs) {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From ee088ed3afbe3d0c5e777461fa095cc7822f76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 02/31] fix: short flag whose name is not ASCII takes its value
 after the whole rune

---
 set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 225cbd6..ae1be2c 100644
--- a/set.go
+++ b/set.go
@@ -2,6 +2,7 @@ package cli
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 // BindingMap contains the occurrences of the values passed to each flag and arg.
@@ -326,7 +327,8 @@ Parsing:
 			}
 
 			_, opt, _, _ := b.LookupOption(flag)
-			value := arg[1+i:]
+			_, width := utf8.DecodeRuneInString(arg[i:])
+			value := arg[i+width:]
 
 			if value != "" {
 				err = instanceTake(value, false, opt)
-- 
2.43.0


From 595c2b74afb59920665b353a33b4bd2447d44dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 03/31] fix: blank name-value pair does not panic

---
 value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.go b/value.go
index 72b88f8..6b1c510 100644
--- a/value.go
+++ b/value.go
@@ -768,6 +768,9 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := SplitList(arg, "=", 2)
+	if len(a) == 0 {
+		return "", "true", false
+	}
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From cdbabc3a8427245be8198065bd846941a470360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 04/31] fix: missing name-value argument is reported as a parse
 error

---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 6b1c510..96fc6bb 100644
--- a/value.go
+++ b/value.go
@@ -626,7 +626,10 @@ func (v *NameValue) Initializer() Action {
 
 func (v *valuePairCounter) Done() error {
 	if v.count == 0 {
-		return errors.New("missing name and value")
+		return &ParseError{
+			Code: ExpectedArgument,
+			Err:  errors.New("missing name and value"),
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 7cd2ef8d909a2dd9fe76cc2b10416d5dae52bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 05/31] fix: skipping flag parsing with an empty argument list
 does not panic

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index ac1809e..a3bda65 100644
--- a/context.go
+++ b/context.go
@@ -191,7 +191,7 @@ func (c *Context) Execute(args []string) error {
 func (c *Context) parse(args []string) *robustParseResult {
 	root := c.Command()
 	set := root.buildSet(c)
-	if root.internalFlags().skipFlagParsing() {
+	if root.internalFlags().skipFlagParsing() && len(args) > 0 {
 		args = append([]string{args[0], "--"}, args[1:]...)
 	}
 
-- 
2.43.0


From 1a56af4d3bc735bb0f6a547652a789a284fb40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 06/31] fix: invalid text for a bool leaves its value unchanged

---
 value.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/value.go b/value.go
index 96fc6bb..1415325 100644
--- a/value.go
+++ b/value.go
@@ -350,12 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
-		if err != nil {
-			return err
+		b, err := parseBool(value)
+		if err == nil {
+			*p = b
 		}
-		return nil
+		return err
 	case *string:
 		s := *p
 		if len(s) > 0 {
-- 
2.43.0


From 966dc14edc757b2c14811b118f4718306ea285a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 07/31] fix: a name-value list is not changed by text that it
 rejects

---
 value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 1415325..7c3bb93 100644
--- a/value.go
+++ b/value.go
@@ -382,6 +382,7 @@ func setCore(dest any, disableSplitting bool, value string) error {
 
 		return nil
 	case *[]*NameValue:
+		res := *p
 		for _, kvp := range values() {
 			nvp := new(NameValue)
 			var hasValue bool
@@ -390,8 +391,9 @@ func setCore(dest any, disableSplitting bool, value string) error {
 			if !hasValue {
 				return fmt.Errorf("value required for %s", nvp.Name)
 			}
-			*p = append(*p, nvp)
+			res = append(res, nvp)
 		}
+		*p = res
 		return nil
 
 	case *int:
-- 
2.43.0


From 84e8a059d575af4471cb2701bcba43f94dd8f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:13 +0000
Subject: [PATCH 08/31] fix: splitting text with a backslash cuts each part
 once

---
 internal/support/support.go | 39 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..19f4178 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -47,27 +46,33 @@ func SplitList(s, sep string, n int) []string {
 		return nil
 	}
 	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
+		return splitEscaped(s, sep, n)
+	}
+	return strings.SplitN(s, sep, n)
+}
 
-		if len(matches) == 0 {
-			return []string{s}
-		}
+// splitEscaped splits at each separator that is not preceded by a backslash
+func splitEscaped(s, sep string, n int) []string {
+	if n == 0 {
+		return nil
+	}
 
-		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
+	res := make([]string, 0)
+	var last int
+	for i := 0; i+len(sep) <= len(s) && (n < 0 || len(res) < n-1); {
+		if s[i:i+len(sep)] != sep || (i > 0 && s[i-1] == '\\') {
+			i++
+			continue
 		}
-		res := make([]string, 0)
+		res = append(res, strings.ReplaceAll(s[last:i], "\\", ""))
+		i += len(sep)
+		last = i
+	}
 
-		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
-		}
-		return res
+	if len(res) == 0 {
+		return []string{s}
 	}
-	return strings.SplitN(s, sep, n)
+	return append(res, strings.ReplaceAll(s[last:], "\\", ""))
 }
 
 func GuessWidth() int {
-- 
2.43.0


From b519011ed3d0c5b5241b5ccbc5f057f7cd6fa1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 09/31] fix: EachOccurrence no longer counts each occurrence
 twice

---
 option.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index f9fa999..a62f313 100644
--- a/option.go
+++ b/option.go
@@ -579,7 +579,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 			if err := rawApplyToOption(
 				[][]string{mini.Raw("")},
 				opt.transformFunc(),
-				opt,
+				replayOccurrence{opt},
 			); err != nil {
 				return err
 			}
@@ -594,6 +594,25 @@ func eachOccurrenceOpt(c1 *Context) error {
 	}))
 }
 
+// replayOccurrence sets the value of an option again from an occurrence
+// that has already been counted
+type replayOccurrence struct {
+	option
+}
+
+func (r replayOccurrence) SetOccurrence(values ...string) error {
+	for _, arg := range values {
+		if err := r.Set(arg); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (r replayOccurrence) SetOccurrenceData(v any) error {
+	return SetData(r.value(), v)
+}
+
 func allowFileReferenceOpt(c context.Context) error {
 	return Do(c, Transform(TransformOptionalFileReference(FromContext(c).actualFS())))
 }
-- 
2.43.0


From f518249ffbc13f6ac629ef3554622331203d018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 10/31] fix: the default of a string arg is replaced by the
 first occurrence

---
 arg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..edd6829 100644
--- a/arg.go
+++ b/arg.go
@@ -484,7 +484,13 @@ func (a *Arg) cloneZero() {
 
 func (a *Arg) nextOccur() {
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		// The implied merge of a string arg joins its occurrences; it does not
+		// retain the default
+		optionReset(a.Value, a.flags)
+		return
+	}
+	optionApplyValueConventions(a.Value, a.flags, false)
 }
 
 func (a *Arg) reset() {
-- 
2.43.0


From 0a43dc0c5c446f85567b49a1120d9cef46dda41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 11/31] fix: appending to a pipeline does not change other
 pipelines

---
 action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index dfb42d6..ea7c850 100644
--- a/action.go
+++ b/action.go
@@ -1625,12 +1625,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(p[:len(p):len(p)], x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(x[:len(x):len(x)], p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0


From 1700ba19b73bbcaf7dc0782a2c0c3668258ca20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 12/31] fix: after actions of flags run when a sub-command was
 executed

---
 context.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index a3bda65..2e08fc3 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,9 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Flags which are inherited from ancestors are processed by the command
+		// which declares them; don't process them again
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
-- 
2.43.0


From 0a4398b74fdd92a56f9da65267544b8f20267fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 13/31] fix: the action of a flag given before a sub-command
 runs once

---
 context.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 2e08fc3..5ca8cef 100644
--- a/context.go
+++ b/context.go
@@ -2128,8 +2128,19 @@ func executeUserPipeline(at Timing) actionFunc {
 
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
-	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	// Action when the flag or arg was set.  For the flags inherited from ancestors,
+	// an action applies only when the flag was used with the current command
+	for _, f := range ctx.PersistentFlags() {
+		if !ctx.usedFlag(f) {
+			continue
+		}
+		err := ctx.newChild(f).executeSelf()
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
@@ -2145,6 +2156,16 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
+// usedFlag tests whether the flag occurred in the arguments to the current command
+func (c *Context) usedFlag(f *Flag) bool {
+	cmd, ok := c.internal.(*commandContext)
+	if !ok || cmd.set.Binding == nil {
+		return false
+	}
+	_, _, state, ok := cmd.set.LookupOption(f.Name)
+	return ok && state == BindingState(f) && len(cmd.set.Raw(f.Name)) > 0
+}
+
 func triggerOption(ctx *Context, f option) error {
 	if f.Seen() || hasSeenImplied(f, ctx.target) {
 		return ctx.newChild(f).executeSelf()
-- 
2.43.0


From c8ef1e6607f71a8bac932df4ff8d459330e32212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 14/31] fix: FromFilePath uses the file system of the current
 context

---
 action.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index ea7c850..32bde6e 100644
--- a/action.go
+++ b/action.go
@@ -1339,14 +1339,15 @@ func flagScreamingSnakeCase(o option) string {
 // Alternatively, you can set the Flag or Arg field FilePath.
 func FromFilePath(f fs.FS, filePath string) Action {
 	return Implicitly(ActionFunc(func(c *Context) error {
-		if f == nil {
-			f = c.actualFS()
-		}
 		if c.ImplicitlySet() {
 			return nil
 		}
 		if len(filePath) > 0 {
-			data, err := fs.ReadFile(f, filePath)
+			fileSystem := f
+			if fileSystem == nil {
+				fileSystem = c.actualFS()
+			}
+			data, err := fs.ReadFile(fileSystem, filePath)
 			if err == nil {
 				c.SetValue(string(data))
 				return nil
-- 
2.43.0


From e953557f94803054577e61b730efb4c16d833544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:05 +0000
Subject: [PATCH 15/31] fix: an implicit value replaces the default of strings,
 lists and maps

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 5ca8cef..8eb4053 100644
--- a/context.go
+++ b/context.go
@@ -921,6 +921,7 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+		c.target.(option).reset()
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From ed8ce1ab33aacb24324d9ac5156d63919cc32301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:26 +0000
Subject: [PATCH 16/31] fix: Implies applies to short flags

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 32bde6e..cc162cb 100644
--- a/action.go
+++ b/action.go
@@ -1141,7 +1141,7 @@ func Implies(name, value string) Action {
 		return nil
 	}
 	if name[0] != '-' {
-		name = "--" + name
+		name = "-" + name // matches either a short or long flag
 	}
 	return ActionFunc(func(c *Context) error {
 		return c.Parent().HookBefore(name, ImplicitValue(func(_ *Context) (string, bool) {
-- 
2.43.0


From 8f92da25e6e6cc582286d0bdbc007aa5e79ff3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:29 +0000
Subject: [PATCH 17/31] fix: lookups by index or of another kind of option do
 not panic

---
 context.go | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/context.go b/context.go
index 8eb4053..4b90fbc 100644
--- a/context.go
+++ b/context.go
@@ -498,7 +498,8 @@ func (c *Context) LookupFlag(name any) (*Flag, bool) {
 	case string:
 		if v == "" {
 			if c.isOption() {
-				return c.LookupFlag(c.option())
+				f, ok := c.target.(*Flag)
+				return f, ok
 			}
 			name = c.Name()
 		}
@@ -527,7 +528,8 @@ func (c *Context) LookupArg(name any) (*Arg, bool) {
 	case string:
 		if v == "" {
 			if c.isOption() {
-				return c.LookupArg(c.option())
+				a, ok := c.target.(*Arg)
+				return a, ok
 			}
 			name = c.Name()
 		}
@@ -671,8 +673,13 @@ func (c *Context) Value(name any) any {
 	}
 
 	switch v := name.(type) {
-	case rune, string, nil, *Arg, *Flag, int:
-		it, _ := tryLookup(c.lookupCore, c.nameToString(v), true)
+	case int:
+		if a := c.logicalArg(v); a != nil {
+			return c.Value(a)
+		}
+		return nil
+	case rune, string, nil, *Arg, *Flag:
+		it, _ := tryLookup(c.lookupCore, nameToString(v), true)
 		return it
 	case contextKeyType:
 		return c
@@ -701,10 +708,16 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 
 	switch f := name.(type) {
-	case rune, string, nil, int, *Arg, *Flag:
-		d := occurs(c.internal, c.nameToString(f))
+	case int:
+		if a := c.logicalArg(f); a != nil {
+			return c.rawCore(a, occurs)
+		}
+		return []string{}
+
+	case rune, string, nil, *Arg, *Flag:
+		d := occurs(c.internal, nameToString(f))
 		if f != "" && len(d) == 0 {
-			return c.Parent().rawCore(c.nameToString(f), occurs)
+			return c.Parent().rawCore(nameToString(f), occurs)
 		}
 
 		return d
@@ -839,17 +852,6 @@ func (c *Context) SetData(name string, v any) error {
 	return nil
 }
 
-func (c *Context) nameToString(name any) string {
-	switch v := name.(type) {
-	case rune, string, nil, *Arg, *Flag:
-		return nameToString(name)
-	case int:
-		return c.logicalArg(v).Name
-	default:
-		panic(fmt.Sprintf("unexpected type: %T", name))
-	}
-}
-
 // SetOptionalValue sets the optional value for the flag
 func (c *Context) SetOptionalValue(v any) error {
 	err := c.requireInit()
@@ -1782,10 +1784,16 @@ func (c *Context) flow() *actionPipelines {
 }
 
 func (c *Context) lookupOption(name any) (option, bool) {
-	if name == "" {
+	if name == "" || name == nil {
 		o, ok := c.target.(option)
 		return o, ok
 	}
+	switch name.(type) {
+	case *Arg, int:
+		return c.LookupArg(name)
+	case *Flag, rune:
+		return c.LookupFlag(name)
+	}
 	if f, ok := c.LookupFlag(name); ok {
 		return f, true
 	}
-- 
2.43.0


From e3f08796047a9b8459451e32326f4f8a4bacb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:36 +0000
Subject: [PATCH 18/31] fix: a value is found by the aliases of its flag

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index ae1be2c..a2a58da 100644
--- a/set.go
+++ b/set.go
@@ -459,6 +459,9 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
+	if n, ok := s.Binding.ResolveAlias(name); ok {
+		name = n
+	}
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(option).value(), true
 	}
-- 
2.43.0


From 58cfeb8fe7129468f0bb06c52e56a282e6b6ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:46 +0000
Subject: [PATCH 19/31] fix: a flag of a sub-command is not hidden by one of
 the same name in an ancestor

---
 set.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/set.go b/set.go
index a2a58da..2dec8b3 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"maps"
 	"strings"
 	"unicode/utf8"
 )
@@ -93,21 +94,28 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 
 		positionalOptions: []string{},
 	}
-	for _, f := range flags {
-		b.defineFlag(f)
-	}
 
+	// Flags from ancestors are defined first so that the nearest flag wins
 	if parent != nil {
 		for _, f := range parent.Flags() {
 			if f.internalFlags().nonPersistent() {
 				continue
 			}
+			b.hide(f.Name)
 			b.defineFlag(f)
 			f.setInternalFlags(internalFlagPersistent, true)
 		}
 	}
+	for _, f := range flags {
+		b.hide(f.Name)
+		b.hide(f.Aliases...)
+	}
+	for _, f := range flags {
+		b.defineFlag(f)
+	}
 
 	for _, a := range args {
+		b.hide(a.Name)
 		b.defineArg(a)
 	}
 	return b
@@ -450,6 +458,17 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 	b.names[name] = f
 }
 
+// hide removes the flags with the given names, and their aliases, so that
+// a nearer flag or arg can use the name
+func (b *bindingImpl) hide(names ...string) {
+	for _, name := range names {
+		delete(b.names, name)
+		isHidden := func(_, target string) bool { return target == name }
+		maps.DeleteFunc(b.shortOptions, isHidden)
+		maps.DeleteFunc(b.longOptions, isHidden)
+	}
+}
+
 func (b *bindingImpl) defineArg(a *Arg) {
 	b.names[a.Name] = a
 	b.positionalOptions = append(b.positionalOptions, a.Name)
-- 
2.43.0


From d392d1a882efb076d8bbfa35989992cc6b6e20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 20/31] fix: a context pattern longer than the path does not
 match

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 4b90fbc..44f0bbb 100644
--- a/context.go
+++ b/context.go
@@ -1486,6 +1486,9 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
+	if len(cp.parts) > len(c) {
+		return false
+	}
 	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
-- 
2.43.0


From b6a21fde3917fc4b6ff5680d79b445557609f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:39 +0000
Subject: [PATCH 21/31] fix: a value rejected by Enum is reported as given when
 it contains %

---
 action.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index cc162cb..e981e89 100644
--- a/action.go
+++ b/action.go
@@ -807,11 +807,14 @@ func Enum(options ...string) Action {
 				for _, occur := range raw {
 					if _, ok := oset[occur]; !ok {
 						expected := listOfValues(options)
+						// The text given by the user is not part of the format
+						escaped := strings.NewReplacer("%", "%%")
 						return &ParseError{
 							Code: InvalidArgument,
 							Err: errorTemplate{
 								fallback: fmt.Sprintf("unrecognized value %q, expected %s", occur, expected),
-								format:   fmt.Sprintf("unrecognized value %q for %%[1]s, expected %s", occur, expected),
+								format: escaped.Replace(fmt.Sprintf("unrecognized value %q", occur)) +
+									" for %[1]s, expected " + escaped.Replace(expected),
 							},
 						}
 					}
-- 
2.43.0


From 3ae27680efb3f43b3f13fa49740f4a5e725b2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 22/31] fix: the help screen does not list hidden sub-commands
 under their category

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 85bbbb6..ba6b285 100644
--- a/templates.go
+++ b/templates.go
@@ -291,7 +291,7 @@ func commandAdapter(val *Command) *commandData {
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
 		VisibleFlags:       visibleFlags(val.VisibleFlags()),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
-		CommandsByCategory: visibleCategories(groupedByCategory(val.Subcommands)),
+		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
 		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
-- 
2.43.0


From 2e9fa08803c19c532d77bc5255913bbd61fde666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 23/31] fix: Wrap glued two words when no room was left for the
 space between them

---
 usage.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index cd66d46..289c85c 100644
--- a/usage.go
+++ b/usage.go
@@ -454,7 +454,14 @@ func (w *wrapper) Write(b []byte) (int, error) {
 			userSpace = c == '\n' // will be false on fallthrough from previous case
 
 		default:
-			tryWrite(&w.pending, w.pending.Len())
+			if !tryWrite(&w.pending, w.pending.Len()) && lineLen > 0 {
+				// no room for the space before this word, so the word starts a new line
+				lineLen = 0
+				w.Writer.Write([]byte("\n"))
+				w.pending.Reset()
+				w.pending.WriteString(w.Indent)
+				tryWrite(&w.pending, w.pending.Len())
+			}
 			buf.WriteRune(c)
 			userSpace = false
 		}
-- 
2.43.0


From e9b51f04c5cc5f5fda8bf6aca87156d145b50b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 24/31] fix: separate required flags by a space in the command
 synopsis

---
 internal/synopsis/synopsis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..6611b5b 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From 7d09bb684c6c6a69f6786f525c4a748494cad2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 25/31] fix: synopsis of right-to-left commands without
 optional args showed every arg as optional

---
 internal/synopsis/synopsis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 6611b5b..9b1d87e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
-- 
2.43.0


From 291703fbfe9d7373e97fc28a37fe322d9120db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:39 +0000
Subject: [PATCH 26/31] fix: the command synopsis listed hidden args

---
 command.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..59783c5 100644
--- a/command.go
+++ b/command.go
@@ -495,12 +495,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	args := make([]*synopsis.Arg, 0, len(c.Args))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
-		args[i] = a.newSynopsis()
+	for _, a := range c.VisibleArgs() {
+		args = append(args, a.newSynopsis())
 	}
 
 	return synopsis.NewCommand(
-- 
2.43.0


From 161ba315fb8f2b2e907faccb21428e9135bd9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:56 +0000
Subject: [PATCH 27/31] fix: text that is not an octal or hexadecimal number
 changed the value it was rejected by

---
 value/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value/value.go b/value/value.go
index d2ef4ea..e38e1b0 100644
--- a/value/value.go
+++ b/value/value.go
@@ -94,8 +94,11 @@ func (b *ByteLength) UnmarshalText(data []byte) error {
 
 func (h *Octal) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0o"), 8, 64)
+	if err != nil {
+		return formatStrconvError(err, string(d))
+	}
 	*h = Octal(s)
-	return formatStrconvError(err, string(d))
+	return nil
 }
 
 func (h Octal) String() string {
@@ -104,8 +107,11 @@ func (h Octal) String() string {
 
 func (h *Hex) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0x"), 16, 64)
+	if err != nil {
+		return formatStrconvError(err, string(d))
+	}
 	*h = Hex(s)
-	return formatStrconvError(err, string(d))
+	return nil
 }
 
 func (h Hex) String() string {
-- 
2.43.0


From 2470828aa5d70b533ab0a57723d775ba3f1d20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:56 +0000
Subject: [PATCH 28/31] fix: ParseByteLength ignored whatever came before the
 number, such as a minus sign

---
 value/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index e38e1b0..6e82d1a 100644
--- a/value/value.go
+++ b/value/value.go
@@ -42,7 +42,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
-- 
2.43.0


From 3fc468befef5a2c6d6b79ca738d1666ca3788260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:56 +0000
Subject: [PATCH 29/31] fix: ParseByteLength read a number with several points
 as zero

---
 value/value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index 6e82d1a..c16d641 100644
--- a/value/value.go
+++ b/value/value.go
@@ -74,7 +74,10 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
+	num, err := strconv.ParseFloat(string(sub[1]), 64)
+	if err != nil {
+		return -1, err
+	}
 	var base float64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
-- 
2.43.0


From 640c30bb45873371a3e33cf74d9ab08ddc82339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:17 +0000
Subject: [PATCH 30/31] fix: creating or opening - panicked when the standard
 output or input is not an os.File

---
 file.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..5c49b4d 100644
--- a/file.go
+++ b/file.go
@@ -423,14 +423,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.reader(), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.writer(), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.writer(), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -581,6 +581,20 @@ func (f fsExtensionWrapper) OpenFile(name string, flag int, perm fs.FileMode) (f
 	}
 }
 
+func (s *stdFile) reader() fs.File {
+	if f, ok := s.in.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
+func (s *stdFile) writer() fs.File {
+	if f, ok := s.out.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
 func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
-- 
2.43.0


From ad32a953e6295ee7566ef9d398001a5747e0b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:24 +0000
Subject: [PATCH 31/31] fix: every file existed in a file system without Stat

---
 file.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/file.go b/file.go
index 5c49b4d..7d75c93 100644
--- a/file.go
+++ b/file.go
@@ -549,14 +549,7 @@ func (f fsExtensionWrapper) MkdirAll(name string, mode fs.FileMode) error {
 }
 
 func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
-	if s, ok := f.FS.(fs.StatFS); ok {
-		return s.Stat(name)
-	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0

