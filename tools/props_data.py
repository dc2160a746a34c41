p("C01","Command-line tokens are bound exactly once and in order",
"When parsing a command line succeeds, every token after the skipped program name is accounted for exactly once and in command-line order: as the name of a flag occurrence, as a value of that occurrence, as a value of exactly one positional argument, or as a `--` separator. Each recorded occurrence starts with the flag as it was written (or the positional's name in angle brackets) followed by exactly the values it consumed, and the complete original token list is recorded under the empty name. A value is never attributed to a name that the command does not define.",
"every token list, every set of flags/args with any combination of value counts, and every parser mode",["inputs","configurations"],
"The suite samples some two hundred command lines; conservation is a statement about the product of all token lists and all flag/arg declarations.",
["set.go","arg.go"],[("parser main loop","set.go RawParse"),("value taking","set.go argList.take, argBinding.SetArg"),("occurrence recording","set.go BindingMap.appendOutput")],
["RawParse","Context.Bindings","Context.Raw"])
p("C02","Flag syntax means the same thing wherever it appears",
"`--name=value` and `--alias=value` bind exactly the text after the first `=`; a short cluster binds each value-less flag in turn and gives the rest of the token to the first flag that takes a value; a lone `-` and the empty token are always positional, and after `--` every token is positional except that a further `--` moves on to the next positional argument. A flag or alias that is not defined is always rejected as an unknown option naming it and carrying the unparsed tokens, `-s=value` is rejected for a flag that takes no value, and when flags after arguments are disallowed a flag that follows a positional token is rejected.",
"every token, at every position, for every set of declared flags and aliases",["inputs","configurations"],
"Tests cover fixed spellings; the rules quantify over every token text, alias table and position.",
["set.go"],[("long option branch","set.go RawParse"),("short cluster loop","set.go RawParse"),("alias resolution","set.go bindingImpl.ResolveAlias, defineFlag")],
["RawParse","App.RunContext"])
p("C03","Arguments take exactly as many tokens as their declared count",
"An argument or flag declared with a count n>=1 takes exactly n tokens and is an error with fewer; the count 0 takes at most one token; -1 takes every remaining token including ones that look like flags; -2 takes tokens until one looks like a flag; -3 takes every token except those that look like flags, which are parsed as flags before the argument resumes. The counter with no arguments takes none, the optional-argument counter takes one token only if its predicate accepts it, and the name-value counter takes one `name=value` token or two separate tokens. A lone `-`, and any token after `--`, never looks like a flag.",
"every count, every token sequence, every position of flag-like tokens",["inputs","histories"],
"The counters are state machines over unbounded token sequences; tests drive a handful of short sequences.",
["arg.go","set.go","value.go"],[("counters","arg.go discreteCounter, defaultCounter, varArgsCounter, matchesArgsCounter; value.go valuePairCounter"),("count selection","arg.go ArgCount"),("counter driving","set.go argBinding.SetArg, argList.take")],
["RawParse","ArgCounter.Take/Done"])
p("C04","Parsing is total: any failure is a usage error with exit status 2",
"For every token list and every declared set of flags and arguments, dividing the tokens among the flags and arguments terminates without a panic, and if it fails (this does not concern text that a value then rejects) the error is a parse error: it has a non-empty message, maps to exit status 2, and the tokens it reports as remaining are a suffix of the tokens given (apart from a rewritten first token that stands for the part of the current token not yet consumed). What was bound before the failure is still returned.",
"every token list including empty, non-ASCII and malformed tokens, and every declaration",["inputs","configurations"],
"Absence of panics and the shape of every error are universal claims; tests only reach the inputs they list.",
["set.go","error.go","arg.go"],[("parse loop and error returns","set.go RawParse"),("error constructors","error.go argTakerError, unknownOption, unexpectedArgument, flagAfterArgError, expectedArgument"),("exit code","error.go ParseError.ExitCode")],
["RawParse","App.RunContext"])
p("C05","Queries over recorded bindings agree with one another",
"For every name, the raw values are the concatenation, in order, of the recorded occurrences, and the raw values without names are the same concatenation with the first element of each occurrence dropped; names that were never bound give empty results; the list of bound names has every bound name except the empty one exactly once. Recording an occurrence appends it after the existing ones of the same name and changes no other name, and replaying a binding map sets each named option once per recorded occurrence, in order, with that occurrence's values, stopping at the first error.",
"every binding map and name",["inputs","histories"],
"Quantifies over arbitrary occurrence histories; tests look at a few one- and two-occurrence maps.",
["set.go"],[("queries","set.go BindingMap.lookup, Raw, RawOccurrences, Bindings, BindingNames"),("updates","set.go appendOutput, ApplyTo, rawApplyToOption")],
["BindingMap methods","Context.Raw/RawOccurrences/Bindings/BindingNames"])
p("C06","A value is set exactly or not at all",
"Setting a numeric value from text stores the number the text denotes if and only if it fits the destination's width and signedness; otherwise an error is returned and the destination keeps its previous value, for every built-in integer, floating-point, duration, URL, IP, regular-expression and big-number destination. A boolean accepts exactly 1/0, true/false, on/off, t/f in any letter case, with the empty text meaning true. Setting a value directly stores exactly the given value, copying a value's zero yields a fresh zero of the same type, and the implied value of an optional flag is 1, 1.0, true, or one second according to its type.",
"every text and every destination type with every prior content",["inputs"],
"Ranges and prior contents are unbounded; the tables in the tests list a few in-range literals per type.",
["value.go","error.go"],[("conversion","value.go setCore"),("direct set","value.go setDirect"),("bool","value.go parseBool"),("zero copy","value.go valueCloneZero"),("implied values","value.go valueSmartOptionalDefault")],
["Set","Flag.Set","Arg.Set"])
p("C07","User-supplied values replace defaults; merging is opt-in",
"The first occurrence on the command line of a list, map, name-value list or string option discards the value it was initialised with unless merging was requested, later occurrences add to lists and maps but replace strings, and with merging nothing is ever discarded. Scalars always hold the last occurrence. The values given to one string argument are joined by spaces. The occurrence count equals the number of times the option was given on the command line (once per token for a positional argument), whether or not its action runs once per occurrence, and an option is reported as seen exactly when that count is not zero.",
"every initial value, every sequence of occurrences, every combination of merge/splitting options",["inputs","histories","configurations"],
"A statement about all histories of occurrences; tests show one or two occurrences for a few types.",
["value.go","flag.go","arg.go"],[("reset conventions","value.go optionApplyValueConventions, optionReset"),("occurrence","value.go optionSetOccurrence; flag.go nextOccur; arg.go nextOccur")],
["Flag.SetOccurrence","Arg.SetOccurrence","Context.List/Map/String"])
p("C08","Lists and maps split on unescaped separators only",
"Splitting text trims it and cuts at every separator that is not preceded by a backslash and nowhere else, left to right, into at most the requested number of parts; when it was cut, every backslash is removed from the parts, and text that was not cut is returned whole. Blank text gives no items. A `key=value` list parses into a map in which the last value of a key wins and an item without `=` continues the value before it with a comma; a name without `=` in a single name-value pair means the value true, and in a list of pairs it is an error that leaves the list unchanged; formatting a map lists its sorted key=value items, and parsing these gives the same map when no key or value needs escaping.",
"every text, separator and part limit",["inputs"],
"Round trips and escape handling range over all strings; the tests list six maps and two blank strings.",
["internal/support/support.go","value.go","cli.go"],[("splitting","internal/support/support.go SplitList"),("maps","internal/support/support.go ParseMap, FormatMap"),("pairs","value.go splitValuePair, NameValue.Set")],
["SplitList","SplitMap","NameValue.Set"])
p("C09","Shell quoting round-trips",
"Quoting any text and splitting the result in the manner of a POSIX shell gives back exactly that one text; joining a list of texts and splitting the result gives back the same list. The quoted form contains no unquoted shell metacharacter.",
"every text and list of texts",["inputs"],
"A round trip over all strings; tests list a few.",
["cli.go"],[("quoting","cli.go Quote, quoteTo, Join"),("splitting","cli.go Split")],
["Quote","Join","Split"])
p("C10","Option sets decompose into their members",
"Applying a combination of options applies exactly the actions of its members, each once, an option combination printed as text and read back is the same combination, and reading option names adds exactly the named options. Setting or clearing one option of a flag, arg or command leaves every other option as it was, and each option predicate reports exactly its own bit.",
"every combination of options",["inputs","configurations"],
"There are 2^24 combinations; tests print and apply single ones.",
["option.go","filter.go","flag.go"],[("decomposition","filter.go decompose, bitSet.items; option.go FeatureMap.Pipeline, splitOptionsHO"),("text","option.go Option.String, UnmarshalText"),("bits","option.go internalFlags predicates, toRaw; flag.go setInternalFlags; action.go internalFlags.setXXX")],
["Option","FeatureMap.Pipeline","FilterModes"])
p("C11","Action pipelines run in order and stop at the first error",
"A pipeline runs its actions strictly in the order they were added and stops at the first that fails, returning that error; pipelines nested inside one another and combined behave like the flattened sequence, and appending or combining pipelines loses, duplicates or reorders nothing and leaves the original pipelines unchanged. Middleware in a pipeline receives the rest of the pipeline as its next action, so that each later action runs exactly as often as the middleware invokes next.",
"every pipeline shape, nesting and failing position",["inputs","histories"],
"Quantifies over all pipelines and failure points; tests use pipelines of two or three actions.",
["action.go"],[("sequencing","action.go ActionPipeline.Execute, Pipeline, takeInitializers"),("composition","action.go ActionPipeline.Append, cons, pipeline")],
["ActionPipeline.Execute","Action.Execute"])
p("C12","Lifecycle hooks run once, in timing order, from root to leaf and back",
"For each run of a command, initialisers run before parsing, Before actions run from the application to the selected command and for each its flags and args, actions run only for options that were given (or implied when that was requested) and then for the selected command, and After actions run from the selected command back to the application. Validators run before other Before actions and implicit-value actions before the final Before stage, and registering an action for a timing that has already passed is an error while registering it for a later timing runs it exactly once then.",
"every command tree, selected command and set of given options",["inputs","configurations","histories"],
"Ordering is a property of all command trees; tests check chosen two-level trees.",
["context.go","command.go","action.go"],[("timing placement","action.go actionPipelines.add, beforePipeline order; context.go Context.act"),("traversal","context.go bubble, tunnel; command.go execute paths")],
["App.RunContext"])
p("C13","Explicit values win over environment, then file, then default",
"An option given on the command line keeps that value whatever its environment variables, file or implied value hold; otherwise it takes the first non-empty environment variable in declared order, otherwise the contents of its file if that exists, otherwise its default. A value obtained implicitly does not count as an occurrence on the command line.",
"every combination of command line, environment variables, file presence and default",["inputs","configurations"],
"The precedence is over a product of sources; tests cover single sources.",
["flag.go","arg.go","context.go","action.go"],[("implicit sourcing","flag.go setupOptionFromEnv / loading; action.go Implicitly, FromEnv, FromFilePath")],
["App.RunContext","Context lookups"])
p("C14","Names resolve to the nearest declared flag, arg or command",
"Looking up a flag finds the first one declared with that name or alias, dashes or angle brackets around the name being irrelevant, in the nearest enclosing command; looking up an arg by number finds that position, with negative numbers counting from the end, and out of range finds nothing; looking up a command considers its name and its aliases. A lookup of a value by name gives the value of exactly the option that parsing would bind under that name, and a name that is not declared gives nothing.",
"every list of declarations and every name or index",["inputs","configurations"],
"Ranges over all declaration lists and names; tests use lists of one or two.",
["flag.go","arg.go","command.go","lookup.go","context.go"],[("list search","flag.go findFlagByName; arg.go findArgByName; command.go findCommandByName"),("value lookup","lookup.go tryLookup, withoutDecorators, parentLookup.lookupValue")],
["Context.LookupFlag/LookupArg/LookupCommand","Lookup"])
p("C15","Context patterns match by path suffix",
"A context path pattern matches a context exactly when its elements, compared right to left, match the last elements of the path: a literal element matches the same text (and `-name` also the flag `--name`), `*` matches any command, `-` or `--` any flag, `<>` any arg and `<->` any expression. A pattern with more elements than the path does not match, and hooks and filters made from a pattern apply to exactly the elements whose path it matches.",
"every path and pattern",["inputs"],
"Ranges over all paths and patterns; tests list a table of about twenty.",
["context.go"],[("matching","context.go contextPathPattern.Match, matchField")],
["ContextPath.Match","PatternFilter","Context.Walk"])
p("C16","Errors carry the exit status that was asked for",
"An exit request built with a trailing integer exits with exactly that status and the message made of the other operands; without an integer it exits with status 1, except that a trailing error code or a parse error gives 2; an empty message becomes a default message naming the status. Running an application and exiting uses the error's own status if it has one, 0 on success and 1 otherwise, and prints the message only when there is a failure message to print.",
"every list of operands and every error value",["inputs"],
"Ranges over all operand lists; tests list nine.",
["error.go","app.go"],[("construction","error.go Exit, exitCore"),("status","error.go ParseError.ExitCode, exitError.ExitCode; app.go exit")],
["Exit","App.Run"])
p("C17","Validators reject exactly the violating uses",
"A required option that was not given on the command line fails the run with an error naming it (a positional arg that must be there may be reported by its count instead), and one that was given never fails for that reason; an enumerated option accepts exactly the listed values and a rejected value is reported as it was given; an option declared exclusive with others fails the run exactly when it and one of the others were given, and the error names it. A validator sees all the values given, once, and a validation failure prevents every later action of the run.",
"every set of declared options of a command and every subset given with it",["inputs","configurations"],
"Ranges over subsets of options and values; tests give single cases.",
["action.go","context.go"],[("required","context.go checkForRequiredOption, Context.Seen, lookupOption"),("enum","action.go Enum"),("mutex","action.go Mutex"),("validators","action.go ValidatorFunc.Execute")],
["App.RunContext"])
p("C18","Structure checks: duplicate names and visibility",
"Initialising a command fails with an error if and only if two of its flags and args have the same name or a flag has no valid name, and otherwise keeps every declared flag, arg and subcommand in order. The visible flags, args and commands are exactly those declared that are not hidden, in order, and grouping by category partitions them, each item appearing in exactly the group of its category.",
"every declared command tree",["inputs","configurations"],
"Ranges over all declaration lists; tests give single duplicates.",
["command.go","flag.go","arg.go","action.go","usage.go"],[("duplicate detection","command.go / internal checks"),("visibility","flag.go VisibleFlags, command.go VisibleSubcommands"),("grouping","flag.go GroupFlagsByCategory; command.go GroupCommandsByCategory")],
["App.Initialize","Command.VisibleFlags etc."])
p("C19","Usage lines, placeholders and wrapping reflect the declarations",
"The usage line of a command is its name followed by the flags that exit as alternatives in braces, the short flags without a value combined (in brackets unless required), the other flags each once, in brackets unless required, and the args, each once: required args first, then the optional ones in brackets (nested, for a command that binds right to left, where everything from the first optional arg on is optional), with an ellipsis exactly on those that take several values; hidden flags and args are not mentioned. A flag is shown by its names and its value by the usage text, else the `{placeholders}` of the help text in the order of their numbers, else its type; the help text shows each placeholder by its name and keeps the other text. Wrapping text to a width keeps every word whole and in order on the lines of its own line of the text, and at most the last word of a line goes beyond the width.",
"every declaration of flags and args, every help text, and every text, indent and width",["inputs","configurations"],
"Ranges over all declarations, texts and widths; tests list a few.",
["internal/synopsis/synopsis.go","internal/synopsis/placeholder.go","usage.go","command.go"],[("usage line","internal/synopsis/synopsis.go NewCommand, Command.WriteTo, writeArgList, NewArg, ArgCounter; command.go getGroup, newSynopsis"),("placeholders","internal/synopsis/placeholder.go ParseUsage, Placeholders"),("wrapping","usage.go Wrap")],
["Command.Synopsis","Flag.Synopsis","Wrap","help screen"])
p("C20","Completion offers exactly the matching candidates",
"Completing a partial word offers, in declaration order, exactly the candidates that start with it, for values, flags and subcommands; combining completions concatenates their candidates. The shell output has one well-formed record per candidate from which the candidate's value can be recovered, and an incomplete or malformed completion request produces an ordinary result rather than a crash.",
"every candidate list and partial word",["inputs"],
"Ranges over all lists and words; tests use fixed lists.",
["completion.go","completion_zsh.go","flag.go","command.go"],[("filter","completion.go CompletionValues, completeFlags"),("zsh format","completion_zsh.go FormatCompletions"),("request","completion.go / completion_zsh.go GetCompletionRequest")],
["Completion.Complete","ShellComplete.FormatCompletions"])
p("C21","File values resolve inside their file system and honour -",
"Opening or creating the name `-` uses standard input or output and never touches the file system, while any other name is passed to the underlying file system unchanged; a rooted file system resolves every relative name to its root joined with the name. A file set holds every path given to it in order, reset empties it, walking it visits each of its files once and stops at the first error, and it exists exactly when each of its files does.",
"every name, root and file set",["inputs"],
"Ranges over all names; tests use a few.",
["file.go"],[("rooting","file.go dirFS.path"),("stdio","file.go defaultFS"),("sets","file.go FileSet")],
["File","FileSet","NewSysFS","DirFS"])
p("C22","Expressions evaluate as a left-to-right filter chain",
"Expression operands bind to their operators exactly as flags bind values, tokens before the first expression are arguments, and evaluation passes each input value through the expressions in order: an expression that yields passes the value on once per yield, one that does not filters it out, and an error stops the evaluation and is returned. Prepending and appending evaluators keeps their relative order and loses none.",
"every expression line, input list and evaluator behaviour",["inputs","histories"],
"Ranges over all chains and yields; tests use two or three.",
["extensions/expr/expr.go"],[("parsing","extensions/expr/expr.go parseExpressions"),("chain","extensions/expr/expr.go Expression.Evaluate, predicate, evaluators")],
["Expression.Evaluate","App.RunContext"])
p("C23","Providers and structures decode exactly the declared fields",
"Setting a provider value records the given name and arguments, and creating the provider uses its defaults overridden by exactly the arguments given, rejecting unknown names; a structure value decodes each `field=value` into the field of that name and rejects what it cannot decode. Provider lookups and listings agree with what was registered.",
"every registry and argument map",["inputs","configurations"],
"Ranges over all maps; tests use one or two entries.",
["extensions/provider/provider.go","extensions/structure/structure.go"],[("value","extensions/provider/provider.go Value.Set, Registry.New"),("decode","extensions/structure/structure.go Decode, Value.Set")],
["provider.Value","provider.Registry","structure.Value"])
p("C24","Template generation is confined and dry runs write nothing",
"Generating from a template writes only files below the output directory at the joined directory and file names, restores the enclosing directory after leaving a nested one even when an error occurs, and does not overwrite an existing file unless asked to. In dry-run mode nothing in the file system is created, changed or removed.",
"every tree of directories, files and vars",["inputs","histories","fault_sequences"],
"Ranges over all trees; tests use a single level.",
["extensions/template/context.go","extensions/template/file.go","extensions/template/dir.go","extensions/template/template.go"],[("directory stack","extensions/template/context.go PushDir, PopDir"),("dry run","extensions/template/context.go"),("files","extensions/template/file.go")],
["template.Root.Execute","OutputContext"])
p("C25","Byte sizes and radix values parse and print consistently",
"A byte length (`12`, `12 B`, `1.5kB`, `3 MiB`) reads as its number times the unit's power of 1000, or of 1024 with an i, without any fraction, and ignoring space around it and before the unit; a fraction of a byte and anything else is an error that leaves the value unchanged (sizes beyond the integers are not decided); an octal or hexadecimal value prints text that reads back as the same value, and text that is not a number in that radix is an error that leaves the value unchanged.",
"every text and value",["inputs"],
"Ranges over all numbers and texts; tests list a dozen.",
["value/value.go"],[("byte length","value/value.go ParseByteLength"),("radix","value/value.go Hex, Octal")],
["value.ByteLength","value.Hex","value.Octal"])
p("C26","Bound functions run once with the values of their names",
"A function bound to options is called exactly once with the current values of exactly those options in parameter order, its error is returned, and if any value cannot be obtained the function is not called and that error is returned. Chained binders evaluate left to right and stop at the first error.",
"every value and failing position",["inputs","fault_sequences"],
"Ranges over all values and failures; tests use one each.",
["extensions/bind/func.go","extensions/bind/binder.go"],[("calls","extensions/bind/func.go Call, Call2, Call3; binder.go Bind")],
["bind.Call*","bind.Redirect"])
