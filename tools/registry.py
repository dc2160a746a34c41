"""What each check consists of."""

TRUSTED = [
    "vcgen (this repository's condition generator: go/ssa semantics, heap model) and golang.org/x/tools/go/ssa",
    "z3 (z3-new, z3 4.8.12) and cvc5",
]

ASSUMPTIONS = [
    "machine integers are mathematical within their type's range; overflow of + - * on int is not checked (narrowing conversions wrap exactly)",
    "partial correctness: termination is not proved (the bounded harness runs under a watchdog)",
    "strings are sequences of bytes in the SMT string theory",
    "a pointer to a struct does not point into the interior of another struct or slice element",
    "no goroutine runs concurrently with the function under contract",
    "package variables keep the value given by their initialiser where no function of the program stores to them (checked mechanically on every run)",
]

ROOT = dict(dir=".", package="cli_test")

PROPS = {}
HARNESS = {}


def prop(pid, level="proof", files=(), **kw):
    PROPS[pid] = dict(level=level, **kw)
    units = {}
    for f in files:
        d, pkg = kw.get("where", {}).get(f, (".", "cli_test"))
        units.setdefault((d, pkg), []).append(f)
    HARNESS[pid] = [dict(dir=d, package=pkg, files=fs) for (d, pkg), fs in sorted(units.items())]


NA = {
 "C20": "the candidates come from closures over the whole parse state and reach the user through text/template shell scripts; no contract on them is discharged yet, and a bounded check alone is not this technique",
 "C22": "expressions are evaluated by goroutine-free closures chained through Yielder values built at run time by reflection-dispatched factories (EvaluatorOf over any); the verifier has no contract for a chain of unknown length of unknown closures",
 "C23": "decoding is done by reflection (mapstructure, reflect.Value.Set) in the standard library and a dependency; the functions of this module only forward to it, so every obligation would rest on an assumed contract of the dependency",
 "C24": "what is generated is decided by text/template execution and by a third-party-shaped file tree of generators behind interfaces; the confinement claim is about the operating system calls made by user-supplied generators, which no contract here bounds",
 "C26": "the binders are generic functions whose instances exist only in user programs; the verifier works on instances and the module contains too few to decide the property for every type",
}

_PARSE = ["parse_test.go", "counters_test.go", "bindings_test.go"]
_T = "contracts on the real functions, every obligation discharged by SMT from the current source; bounded harness for replay"
prop("C01", files=_PARSE, technique=_T,
     note="RawParse is proved against a read/record protocol: every token read is recorded once, in order, before the next one is read.")
prop("C02", files=_PARSE, technique=_T,
     note="The shape of every recorded flag occurrence (long with and without =, cluster, rest of the cluster) is a precondition of recording that RawParse is proved to meet.")
prop("C03", files=_PARSE, technique=_T,
     note="Every counter's Take/Done, ArgCount, NoArgs, OptionalArg and the token-taking loop are proved against their contracts for all inputs.")
prop("C04", files=_PARSE, technique=_T,
     note="RawParse and its callees are proved free of panics, and every error they return a ParseError whose remaining tokens are a tail of the line.")
prop("C05", files=_PARSE, technique=_T,
     note="lookup, Raw, RawOccurrences, Bindings, BindingNames, appendOutput, rawApplyToOption and ApplyTo are proved against concatenation, uniqueness and replay contracts.")
prop("C06", files=["values_test.go"], technique=_T,
     note="setCore (every built-in destination type), setDirect, valueCloneZero, valueSmartOptionalDefault, parseBool and formatStrconvError are proved; what a text denotes is the documented meaning of the standard library's conversions.")
prop("C07", files=["occur_test.go"], technique=_T,
     note="optionApplyValueConventions, optionReset, nextOccur of flags and args, Seen, Occurrences, optionSetOccurrence and the list/map/string cases of setCore are proved for every value, option set and history.")
prop("C08", files=["split_test.go"], technique=_T,
     note="SplitList, splitEscaped, ParseMap, splitValuePair, FormatMap, NameValue.Set and the list/map/name-value cases of setCore are proved.")
prop("C10", files=["option_test.go"], technique=_T, note="every predicate, setInternalFlags, SetHidden/SetRequired, toRaw, decompose, items and splitOptionsHO are proved over bit vectors; the table from options to their actions and Option.String/UnmarshalText are covered by the bounded stand-in only.")
prop("C09", files=["quote_test.go"], technique=_T,
     note="Quote of a text, Join and NameValue.String are proved to give the quoted forms, and the round trip through a POSIX shell reader is proved by induction over all texts and lists. cli.Split (go-shellquote) is compared with that reader by the harness only.")
prop("C11", files=["pipeline_test.go"], technique=_T,
     note="cons.Execute, toCons, ActionPipeline.Execute, Append, Prepend, anyNested, flatten (of a flat pipeline) and Do are proved: each action run is the next of the list, none runs after an error, a middleware is given exactly the rest; the flattening of nested pipelines and Pipeline() are covered by the bounded stand-in only.")
prop("C12", files=["timing_test.go", "pipeline_test.go"], technique=_T,
     note="Context.act (now, later or too late), Context.Execute (stages in order, stop at the first error), bubble and tunnel (visit order over the lineage, which is proved), triggerOption, triggerOptions and hasSeenImplied are proved; the built-in pipelines' contents and their order are covered by the bounded stand-in.")
prop("C13", files=["implicit_test.go"], technique=_T,
     note="FromEnv, FromFilePath, Implicitly, ImplicitlySet and SetValue are proved for every list of variables, environment and file; the order in which the sources are set up and the expansion of {} are covered by the bounded stand-in.")
prop("C14", files=["lookup_test.go"], technique=_T,
     note="findFlagByName, findArgByName, findCommandByName, LookupFlag, LookupArg, LookupCommand (recursively, over every chain of contexts), tryLookup, the lookups of set, parentLookup and bindingImpl are proved; which names a binding defines across levels is covered by the bounded stand-in.")
prop("C15", files=["pattern_test.go", "pipeline_test.go"], technique=_T,
     note="contextPathPattern.Match, matchField and the classifiers of path elements are proved for every pattern and path; splitting the pattern into words is strings.Fields, assumed; that hooks and filters use this matching is covered by the bounded stand-in.")
prop("C16", files=["exit_test.go"], technique=_T,
     note="Exit, exitCore, ParseError.ExitCode, exitError.ExitCode and Error, exit and defaultExitHandler are proved for every list of operands and every error; how fmt renders the operands is assumed, and that the error of the run reaches exit is covered by the bounded stand-in.")

prop("C17", files=["validate_test.go", "pipeline_test.go"], technique=_T,
     note="checkForRequiredOption, Seen and lookupOption (the option of the context and by name), Enum and its validator, Mutex's validator and ValidatorFunc's are proved for every option, list of values and set of options given; that the validators run, and stop the run, is covered by C12's proof of the stages and by the bounded stand-in.")
prop("C18", files=["structure_test.go"], technique=_T,
     note="finalizeArgsAndFlags (fails exactly on clashing or invalid names), VisibleArgs, VisibleSubcommands, VisibleFlags and filterInVisibleFlags, and the look-up of a category are proved for every declaration; the grouping loops and the help screen are covered by the bounded stand-in.")
prop("C19", files=["usage_test.go"], technique=_T,
     note="ArgCounter, NewArg, getGroup, NewCommand (which args are required or optional), writeArgList, Arg/Value/Flag writing and Command.WriteTo (the exact text of the usage line) are proved for every declaration; names, placeholders, the order by name within a group and wrapping are covered by the bounded stand-in.")
prop("C25", files=["radix_test.go"], where={"radix_test.go": ("value", "value_test")}, technique=_T,
     note="ParseByteLength, ByteLength/Octal/Hex.UnmarshalText and formatStrconvError are proved for every text (what the pattern of a size matches and floating-point arithmetic are uninterpreted); printing, the pattern and the table of units are covered by the bounded stand-in.")
prop("C21", files=["files_test.go"], technique=_T,
     note="every method of dirFS (which path reaches the operating system), defaultFS's Open, OpenContext, Create, OpenFile and Stat (the name -), every method of File, and FileSet's Set, Reset, Exists and Do are proved for every name, root, set and failing position, against recording contracts on os and the underlying file system; the walk of a directory, SetData, All and the wrapper of plain file systems are covered by the bounded stand-in.")
