NOTES = """All checks are one static analyser (checker/, Go, golang.org/x/tools ssa over the type-checked
program of /repo with patches/ applied to typescript-go in memory). No code of /repo is executed."""

COMMON = """Decided on the SSA form of the current tree, with the typescript-go patches applied in memory.
Trusted: the Go type checker and x/tools/go/ssa, the models of the few standard-library calls named in DESIGN.md,
and that code outside the analysed packages does not write to the objects in question by reflection or unsafe."""

P = [
dict(id="C01", title="Headless stdout is a well-formed stream of whole frames",
 statement="""Whatever happens in a headless run, the bytes on standard output are a concatenation of complete frames, each a
 four-byte little-endian payload length, one message-type byte and exactly that many payload bytes. No two producers
 ever interleave inside or between the parts of a frame, buffered frames are flushed before the process ends, and nothing else is
 written to standard output.""",
 over=["inputs","schedules","fault_sequences"], for_all="every payload, every interleaving of lint workers and the diagnostics writer, and every failure return",
 why="The tests compare decoded output of some fixtures; they do not enumerate schedules, failure returns or stray prints.",
 files=["cmd/tsgolint/headless.go"], mech=[("frame writer","cmd/tsgolint/headless.go:writeMessage"),("single writer goroutine, joined before main writes","cmd/tsgolint/headless.go:runHeadless")],
 observe=["standard output of `tsgolint headless`"],
 technique="interprocedural SSA supergraph: frame layout by value provenance, writer ownership, join and flush must-pass-through",
 note=COMMON+""" Loops other than range loops are over-approximated; panics are outside (the Go runtime ends the process)."""),
dict(id="C02", title="Every reported diagnostic is written exactly once",
 statement="""Every diagnostic that a rule or the program loader reports in a headless run is written to standard output exactly once,
 as one diagnostic frame, before a successful exit. None is dropped, duplicated, sampled, reordered past the end of the run, or lost because its text
 cannot be encoded.""",
 over=["inputs","schedules"], for_all="every diagnostic of every run, under every schedule of the workers and the writer",
 why="Tests look at small outputs of fixed fixtures; losses depend on buffering, on scheduling and on unusual text.",
 files=["cmd/tsgolint/headless.go","internal/linter/linter.go"],
 mech=[("one blocking send per reported diagnostic","cmd/tsgolint/headless.go:runHeadless"),("writer drains the channel until it is closed","cmd/tsgolint/headless.go:runHeadless"),("emit stores and forwards","internal/linter/linter.go:emitDiagnostic")],
 observe=["diagnostic frames on standard output"],
 technique="interprocedural SSA supergraph: exactly-once send/receive/write path counting, encoder fallibility, field provenance",
 note=COMMON),
dict(id="C03", title="Failures are reported as an error frame and a non-zero exit",
 statement="""When a headless run cannot do its work (working directory, standard input, configuration, program creation or
 the linter fail), it writes one error frame carrying the cause and exits non-zero. It exits with zero only after all requested work succeeded,
 and no error value on the way is discarded.""",
 over=["fault_sequences","inputs"], for_all="every failing step and every combination of earlier successful steps",
 why="The tests have no fault injection: most failure branches are never executed.",
 files=["cmd/tsgolint/headless.go","cmd/tsgolint/payload.go","internal/linter/linter.go","internal/utils/create_program.go"],
 mech=[("error returns after writeErrorMessage","cmd/tsgolint/headless.go:runHeadless"),("error propagation","internal/linter/linter.go:RunLinter")],
 observe=["exit code and error frame of `tsgolint headless`"],
 technique="interprocedural SSA error-flow analysis (property simulation over nil/non-nil error states)",
 note=COMMON),
dict(id="C04", title="Fixes and suggestions appear only, and always, when asked for",
 statement="""Fixes are computed and emitted only when fixes were requested, and suggestions only when suggestions were requested, each independently of the other.
 When requested, every fix and suggestion a rule attaches reaches the output complete and in order, whichever reporting entry point the rule used; when not requested the callbacks that build them never run.""",
 over=["configurations","inputs"], for_all="all four combinations of the two switches and every reporting entry point",
 why="Rule tests always run with both switches on; the off combinations and mixed entry points are not sampled.",
 files=["cmd/tsgolint/headless.go","internal/linter/linter.go","internal/rule/rule.go"],
 mech=[("gating of the fix callbacks","internal/linter/linter.go:ruleContextBuilder"),("gating of emission","cmd/tsgolint/headless.go:runHeadless"),("switches from the command line","cmd/tsgolint/headless.go:parseHeadlessOptions")],
 observe=["fixes/suggestions members of diagnostic frames"],
 technique="SSA control-dependence (cut-edge reachability) and value provenance from the flag to every producer call and emission",
 note=COMMON),
dict(id="C05", title="A diagnostic names the rule and the file it comes from",
 statement="""Every diagnostic a rule reports carries the name of the rule whose code reported it and the source file that was being linted when it was reported,
 and the rule sees the type checker and the program that file belongs to. A rule's listeners see the nodes of the files the rule was configured for and of no other, and no listener of one file stays registered
 when the next file is linted.""",
 over=["inputs","schedules"], for_all="every sequence of files, rules and listeners on every worker",
 why="Rule tests run one rule on one file; mix-ups need several rules, several files and a reused worker.",
 files=["internal/linter/linter.go","internal/rule/rule.go","cmd/tsgolint/headless.go"],
 mech=[("context fields set before each rule and listener call","internal/linter/linter.go:RunLinterOnProgram"),("listener registry cleared between files","internal/linter/linter.go:RunLinterOnProgram")],
 observe=["rule and file_path of diagnostic frames"],
 technique="interprocedural SSA supergraph: must-reaching stores of context cells before every call into rule code, pairing of functions and names through the registry, must-clear of the listener registry",
 note=COMMON),
dict(id="C06", title="Every requested file is linted once with its own rules",
 statement="""Every file a headless request names is linted exactly once, with exactly the rules and options its configuration lists (the last one that names it), whatever project it belongs to and however the files are spread over projects and workers.
 No requested file or configured rule is dropped or run twice, a file that matches no project is linted in an inferred one, and no worker stops before the queue of files is empty.""",
 over=["inputs","schedules"], for_all="every request, every assignment of files to projects, every schedule of the workers",
 why="Tests lint a handful of fixtures; dropping or repeating a file depends on the mix of projects, duplicates and worker timing.",
 files=["cmd/tsgolint/headless.go","internal/linter/linter.go"],
 mech=[("request to work list","cmd/tsgolint/headless.go:runHeadless"),("work list to programs","internal/linter/linter.go:RunLinter"),("file queue and workers","internal/linter/linter.go:RunLinterOnProgram")],
 observe=["diagnostic frames per file and rule"],
 technique="interprocedural SSA supergraph: container-flow (every element of one list reaches the next on every path), loop-completeness, channel protocol (capacity, close, drain) and per-file rule lookup provenance",
 note=COMMON+" Paths in the request are taken to be absolute, as the protocol demands."),
dict(id="C07", title="Every syntax node is visited once, entered and left around its children",
 statement="""Linting a file enters every node of its syntax tree exactly once, in source order, and leaves it exactly once after all its children, so that rules see properly nested enter and exit events.
 Array and object literals are announced as patterns exactly when they are destructuring targets, including nested targets, targets with default values and targets of for-in and for-of loops, and as ordinary literals otherwise.""",
 over=["inputs"], for_all="every syntax tree",
 why="A traversal that skips or repeats one child of one node kind only shows on code that has a rule-relevant node there.",
 files=["internal/linter/linter.go","internal/rule/rule.go"],
 mech=[("visitors","internal/linter/linter.go:visitLintNodes"),("derived listener kinds","internal/rule/rule.go:ListenerOnExit")],
 observe=["diagnostics of any rule listening on a node"],
 technique="symbolic path enumeration over the visitors' SSA, checked against the ForEachChild definitions in typescript-go's source",
 note=COMMON),
dict(id="C08", title="Lint workers never race on shared memory",
 statement="""No two goroutines of a run access the same mutable memory without synchronisation when at least one of them writes: each type checker is used by one worker at a time,
 rules never modify syntax trees, types or the options they share, and keep no state outside the file being linted, and tables shared by the workers are only read while they run.
 Results handed from one goroutine to another are complete before they are read.""",
 over=["schedules","inputs"], for_all="every interleaving of the workers on every request",
 why="A race shows only under particular timing, and the tests neither run many workers nor cover all rules concurrently.",
 files=["internal/linter/linter.go","cmd/tsgolint/headless.go","internal/rules","internal/utils"],
 mech=[("one checker per worker","internal/linter/linter.go:makeCheckerWorkloadQueue"),("state local to a rule run","internal/rule/rule.go:Rule"),("locks around the timing store","internal/linter/timing.go:merge")],
 observe=["race detector reports, crashes, diagnostics differing from run to run"],
 technique="effect analysis over SSA: origin sets of every written pointer, mutation summaries of all reachable functions, lock and join regions of shared cells, ownership of checkers",
 note=COMMON+" typescript-go's own internal synchronisation is trusted."),
dict(id="C09", title="The same request always gives the same diagnostics",
 statement="""Two runs on the same request and file contents report the same diagnostics, with the same ranges, messages, fixes and suggestions, and those of one file in the same order (timings aside).
 Nothing reported depends on the iteration order of maps, the clock, randomness, memory addresses, internal numbering, or the order in which goroutines finish.""",
 over=["inputs","schedules"], for_all="every request, every map iteration order and every schedule",
 why="A test run is one sample of the iteration orders and schedules; small maps often agree by luck.",
 files=["cmd/tsgolint/headless.go","internal/linter/linter.go","internal/utils/find_tsconfig.go","internal/rules"],
 mech=[("sorted root files","cmd/tsgolint/headless.go:runHeadless"),("results keyed by file","internal/utils/find_tsconfig.go:FindTsConfigParallel"),("rules walk lists, not maps","internal/rules")],
 observe=["diagnostic frames of repeated runs"],
 technique="order-insensitivity analysis of every loop over a map or over a list collected in map or completion order (commuting effects, constant exits, sorting before use), taint of clock, randomness, addresses and internal ids",
 note=COMMON+" typescript-go is trusted to give answers about a file that do not depend on which files were checked before."),
dict(id="C11", title="Rules take the options their schema publishes",
 statement="""Each rule accepts every option its published schema lists, under that name and with the declared type; an option that is left out or null has the declared default, and one that is given reaches the rule complete and unaltered
 (a string outside an option that is a plain enumeration is refused). A rule uses its options only in this decoded form, whether or not any were given, does not change them afterwards, and consults every option its schema lists.""",
 over=["inputs","configurations"], for_all="every rule with a schema, every listed option in each of the cases absent, null and given, whatever the other options are",
 why="Rule tests set a few options of a few rules; defaults, null members and combinations are hardly sampled.",
 files=["internal/rules/*/schema.json","internal/rules/*/options.go","internal/utils/utils.go","internal/utils/type_matches_specifier.go"],
 mech=[("generated decoders","internal/rules/no_floating_promises/options.go:UnmarshalJSON"),("decoding through JSON on every run","internal/utils/utils.go:UnmarshalOptions"),("boolean-or-object members","internal/utils/utils.go:BoolOr"),("specifiers","internal/utils/type_matches_specifier.go:TypeOrValueSpecifier")],
 observe=["diagnostics of a rule under a given options object"],
 technique="schema/type correspondence plus join-based abstract interpretation of every decoder for each option's absent, null and given case; reachability of option reads and writes",
 note=COMMON+" Lists of names inside a specifier are unrolled up to three elements; the JSON library is modelled. That a rule's reaction to an option is the right one is not claimed."),
dict(id="C10", title="Every documented rule can be requested by its name and runs its own code",
 statement="""Every rule the documentation lists as implemented can be requested under its documented name, and a requested name runs the code of that very rule and of no other.
 No two rules share a name, the set of rules and their names never changes while the program runs, and a request for a name that belongs to no rule makes the run fail instead of being ignored.""",
 over=["inputs","configurations"], for_all="every rule name that can stand in a request, whatever else is requested",
 why="Each rule is tested by calling it directly, not through the name in a request; a wrong or missing entry leaves those tests green.",
 files=["cmd/tsgolint/main.go","cmd/tsgolint/headless.go","internal/rules","README.md"],
 mech=[("list of rules","cmd/tsgolint/main.go:allRules"),("table by name","cmd/tsgolint/headless.go:runHeadless"),("rule variables","internal/rule/rule.go:Rule")],
 observe=["rule in diagnostic frames","exit status of a request with an unknown name"],
 technique="evaluation of the initialisers to the multiset of registered rule variables, compared with the declared and the documented rules; interprocedural SSA provenance and loop-completeness of the table by name",
 note=COMMON),
dict(id="C17", title="Calls into the TypeScript engine reach the intended code and data",
 statement="""Whatever the linter asks of the TypeScript engine is answered by the engine function it names, called with exactly the parameters and results that function has.
 Every constant, type and variable it uses under an engine name is the engine's own of that name, and every internal engine field it reads through a copied layout is the field it asks for, with its full value.""",
 over=["inputs","histories"], for_all="every call, constant and field access that crosses from the linter into the engine, on every program",
 why="The crossing is made by name-based linking and memory reinterpretation, which no compiler checks; a wrong target or offset answers plausibly on most inputs.",
 files=["shim"],
 mech=[("linked functions","shim/checker/shim.go:Checker_getTypeOfSymbol"),("mirrored structs","shim/checker/shim.go:extra_Checker"),("aliases","shim/ast/shim.go:Node")],
 observe=["diagnostics of rules that ask the engine"],
 technique="declaration-by-declaration comparison of the shim packages with the type-checked engine: link targets, signature identity, constant and type identity, struct offsets and sizes, provenance of accessor results",
 note=COMMON+" Sizes and offsets are those of the gc compiler on 64-bit targets."),
dict(id="C23", title="Linting changes nothing on the machine",
 statement="""Whatever is linted and whatever happens on the way, a run creates, changes and removes no file, starts no other program, opens no network connection and leaves its working directory and environment variables alone.
 The only exceptions are the trace and profile files whose names are given by command line options: each is created only if its option is given, and under exactly that name.""",
 over=["inputs","configurations","fault_sequences"], for_all="every request, project and command line",
 why="A write that happens only for an odd input or on an error path leaves every test green.",
 files=["cmd/tsgolint","internal","shim"],
 mech=[("profile outputs","cmd/tsgolint/main.go:recordTrace"),("memory profiles","cmd/tsgolint/main.go:writeMemProfiles"),("options","cmd/tsgolint/headless.go:runHeadless")],
 observe=["files on disk","processes","network connections","environment"],
 technique="rapid type analysis of the call graph over repository, engine and dependencies with an effect classification of every reached operating-system function; value provenance and guard reachability for created files",
 note=COMMON+" Effects inside the Go runtime and standard library (temporary kernel objects, threads) are not effects here."),
dict(id="C14", title="Override text replaces the text on disk, and nothing else",
 statement="""When a request carries override text for a file, that file is linted, type-checked and imported with exactly this text, whatever is on disk under its name and even if nothing is, and an empty text counts as well.
 Overrides are found by the same form of the name as requested files, every override of the request takes effect, and no part of the linter reads source files past them.
 Files without an override, directories and everything else about the file system are seen as they are on disk.""",
 over=["inputs","configurations"], for_all="every set of overrides, every file, and every part of the linter that reads files",
 why="Tests exercise the overlay's methods on a few names; which file system each part of the linter really reads through, and for which names, they do not see.",
 files=["cmd/tsgolint/overlayfs.go","cmd/tsgolint/headless.go","cmd/tsgolint/payload.go","internal/utils/host.go","internal/linter/linter.go"],
 mech=[("overlay","cmd/tsgolint/overlayfs.go:overlayFS"),("map of overrides","cmd/tsgolint/headless.go:runHeadless"),("engine host","internal/utils/host.go:GetSourceFile")],
 observe=["diagnostics for files with override text"],
 technique="interprocedural SSA provenance of every file-system value under the assumption that overrides are given, case analysis of the overlay's methods, loop completeness of the override map, call-graph reachability of other file reads",
 note=COMMON+" Requested and override names are absolute and without dot segments; other names make the engine fail."),
dict(id="C13", title="A request is read in the format its version says",
 statement="""A request with version 2 is taken exactly as it stands: every member reaches the run with its value, and a well-formed one is never rejected for what it contains.
 A request without a version, or with version 0, is in the old format: each listed file becomes one configuration of its own with exactly this file and exactly its listed rules in order, without options, overrides or compiler errors.
 Any other version, a document that is malformed for its format, and an old-format request without files end in an error frame and a non-zero status, and nothing is linted.""",
 over=["inputs","configurations"], for_all="every version number and every request document",
 why="Tests decode a few documents; what happens for the other versions, for documents that fail half-way and for lists of other lengths, they leave open.",
 files=["cmd/tsgolint/payload.go","cmd/tsgolint/headless.go"],
 mech=[("request types","cmd/tsgolint/payload.go:headlessPayload"),("version and conversion","cmd/tsgolint/payload.go:deserializePayload"),("use","cmd/tsgolint/headless.go:runHeadless")],
 observe=["which files are linted with which rules","error frames","exit status"],
 technique="path-sensitive property simulation over the interprocedural SSA graph for representative versions and decoding outcomes; value provenance and loop completeness of the converted lists; wire-format comparison of struct tags and types",
 note=COMMON+" The JSON library decodes as documented."),
dict(id="C15", title="Compiler errors are reported exactly when, and as, asked for",
 statement="""When a request asks for syntactic or for semantic compiler errors, every error of that kind the TypeScript engine has for a linted file is reported once, for each file of each project, the inferred one included; of a kind not asked for, none is.
 Each is reported as it is: its own number after "TS", its own text and range, and the path of the file it is in.
 Errors that belong to no file, or to a file other than the one being gone through, are left out.""",
 over=["inputs","configurations"], for_all="every linted file, every project and every combination of the two requests",
 why="Tests run with both requests off; which errors are lost when a program has several files, or when only some have errors, no test looks at.",
 files=["internal/linter/linter.go","cmd/tsgolint/headless.go"],
 mech=[("compiler errors","internal/linter/linter.go:reportTypeScriptDiagnostics"),("per program","internal/linter/linter.go:RunLinterOnProgram"),("options","cmd/tsgolint/headless.go:runHeadless")],
 observe=["compiler errors in the output"],
 technique="interprocedural SSA provenance of each reported list to the engine's complete answer for a linted file, loop completeness and must-pass analysis with the request's flags as edge cuts, provenance of each reported member",
 note=COMMON+" The engine's own answers are taken as right."),
dict(id="C16", title="Problems of a project are reported and keep its files from being linted",
 statement="""If a project's configuration cannot be parsed, has faulty options, or describes a program the engine finds faulty, each problem found is reported exactly once, as a configuration error with its own text and range and the path of the file it is in (the project's configuration file if it is in none).
 No file of that project is then linted, while all other projects and the files without a project are linted as usual, and for a project without problems nothing is reported and its files are linted.
 Only if the environment variable for suppressing such problems is set to "true", faulty options and faulty programs are neither reported nor keep the project from being linted; configurations that cannot be parsed still are.""",
 over=["inputs","configurations"], for_all="every project, every set of problems of each kind and both settings of the variable",
 why="Tests build programs from valid configurations; what happens with each kind of problem, with several of them, or to the projects after a faulty one, they do not exercise.",
 files=["internal/utils/create_program.go","internal/linter/linter.go","cmd/tsgolint/headless.go"],
 mech=[("problems","internal/utils/create_program.go:CreateProgram"),("reporting","internal/linter/linter.go:RunLinter"),("suppression","cmd/tsgolint/headless.go:suppressProgramDiagnostics")],
 observe=["configuration errors in the output","which files are linted"],
 technique="path-sensitive property simulation over the interprocedural SSA graph with the emptiness of each list of problems as facts; one-to-one list conversion and loop completeness; provenance of each reported member",
 note=COMMON+" Problems of an earlier kind end the look for later ones."),
dict(id="C27", title="A diagnostic in the output says exactly what was reported",
 statement="""Each diagnostic frame carries exactly the report it stands for: its kind (0 for a rule's diagnostic, 1 for any other), path, range, message id, description and help, and its labelled ranges, fixes and suggestions complete, in order, with their own texts, messages and ranges; nothing is left over from another report, and members have the names and types of the protocol.
 A report on a node covers the node's text from its first token to its end, and a report on a range exactly that range.
 The helpers for fixes insert directly before or after the node's text, or replace or remove exactly that text or the given range, and the helper that reports either a fix or a suggestion hands over all fixes, with the right message.""",
 over=["inputs","histories"], for_all="every diagnostic, with and without ranges, labels, fixes and suggestions, after any other",
 why="Tests compare what rules report before it is turned into frames; that every part of every report survives the conversion, next to whatever was reported before it, is not tested at all.",
 files=["cmd/tsgolint/headless.go","internal/linter/linter.go","internal/rule/rule.go","internal/utils/utils.go"],
 mech=[("frames","cmd/tsgolint/headless.go:runHeadless"),("reporting","internal/linter/linter.go:ruleContextBuilder"),("fix helpers","internal/rule/rule.go:RuleFixReplace"),("node text","internal/utils/utils.go:TrimNodeTextRange")],
 observe=["members of diagnostic frames"],
 technique="value provenance over the interprocedural SSA graph in views of rule and of internal diagnostics; one-to-one list conversion; symbolic evaluation of range expressions; comparison of the frame's type with the protocol",
 note=COMMON+" What rules choose to report is theirs; the range type and the scanner are trusted."),
dict(id="C12", title="Every run comes to an end",
 statement="""A run ends after finitely many steps for every input: no function that rules or the command use calls itself, directly or through others, again and again on what it was given before (types that refer to themselves, variables initialized from one another, configurations that refer to each other), and no loop goes round without getting anywhere.
 No part of a run waits for something that cannot come: everything that is received from is closed in time, every hand-over has room or a taker, whoever is waited for ends, and locks are released.""",
 over=["inputs","schedules","histories"], for_all="every shape of source code and types (circular ones too), every number of files and workers, every schedule",
 why="Tests cover a few well-behaved sources and a handful of files; a circle or an unlucky number of files hangs or overflows the whole process, and nothing at all is reported.",
 files=["internal/rules","internal/utils","internal/linter/linter.go","cmd/tsgolint/headless.go","cmd/tsgolint/main.go"],
 mech=[("recursion over types","internal/utils/ts_eslint.go:discriminateAnyTypeWorker"),("breadth-first walk","internal/collections"),("queues of files","internal/linter/linter.go:makeCheckerWorkloadQueue"),("output thread","cmd/tsgolint/headless.go:runHeadless")],
 observe=["the process ends"],
 technique="interprocedural descent analysis over the cycles of the call graph (relation of every argument to what the caller was given, history sets that cut the cycle); per-path progress analysis of every loop; wait/close/lock analysis on the supergraphs of both entry points",
 note=COMMON+" The type checker and the parser of typescript-go are trusted to end. Recursion over types that are made anew on every round, so that no history can recognise them, and the absence of exponential running times are not decided."),
dict(id="C26", title="Every report says what is wrong in finished words",
 statement="""Whatever a rule reports, on every path and for every input, the message has an id that is a fixed name and a description that is never empty; the same holds for the message of every suggestion, and every labelled range has a label with words in it.
 The text is finished: each placeholder is filled with exactly one value of a kind that fits, no value is left over, and no placeholder mark remains.""",
 over=["inputs"], for_all="every report, suggestion and label of every rule, on every path that leads to it",
 why="Tests see the messages of the cases they contain; a path on which a message is left blank or a format gets too few values shows only for the sources that take it.",
 files=["internal/rules","internal/rule/rule.go"],
 mech=[("messages","internal/rule/rule.go:RuleMessage"),("builders","internal/rules")],
 observe=["message of diagnostic frames","messages of suggestions"],
 technique="whole-program backward value flow (reaching definitions, closures, parameters of all callers, lists) from every report to the constants and formats its message is made of; format and argument checking",
 note=COMMON+" What is put into a placeholder (names of types, source text) is not judged."),
dict(id="C18", title="Linting never fails on a node that is not what a rule takes it for",
 statement="""Whatever source is linted, no rule takes a syntax node for one of another kind, or asks it for something nodes of its kind do not have.
 No rule uses a part that is missing there: a name a function does not have, an absent initializer, body, condition, operand, type or token, a symbol or a type there is none for.
 So no source text ends the run through such a mistake.""",
 over=["inputs"], for_all="every syntax tree the parser can build, every rule and every path through it",
 why="Tests hold the sources someone thought of; a rule crashes on the construct nobody did (a function without a name, a yield without operand), and a crash loses the reports on all files.",
 files=["internal/rules","internal/utils","internal/linter"],
 mech=[("rules","internal/rules"),("helpers","internal/utils"),("traversal","internal/linter/linter.go:RunLinterOnProgram")],
 observe=["no panic; exit status 0","all diagnostic frames are there"],
 technique="interprocedural forward dataflow of sets of node kinds and of absence, refined by branch conditions, over all functions of the repository; oracle: the grammar of the syntax tree derived from the engine's parser, factory and accessors",
 note=COMMON+" Indexes, nil maps and numeric failures are outside. Elements of lists, and values kept in tables by earlier visits, are taken to be there; the other trusted facts are listed in DESIGN.md."),
]

NA = [
dict(id="C19", title="Applying an offered fix leaves a program that still parses",
 statement="""Whatever the source, applying the fixes of one diagnostic (or one of its suggestions) to it gives text that parses without new syntax errors.""",
 over=["inputs"], for_all="every source and every fix and suggestion of every rule",
 why="Each test applies fixes to a handful of sources; operator precedence, comments, and token gluing differ with the surroundings.",
 files=["internal/rules","internal/rule/rule.go"], mech=[("fixes","internal/rule/rule.go:RuleFix")],
 reason="""Whether spliced text parses depends on the characters around a run-time range and on the precedence of expressions copied from the source; no abstraction
 of strings and ranges in reach of a static analysis here decides it, and approximations would alarm on correct fixes. It would need generated programs, another family."""),
dict(id="C20", title="Each rule reports exactly what its typescript-eslint original reports",
 statement="""For every program and every option, a rule reports a problem where the rule of the same name of typescript-eslint reports one, and nowhere else.""",
 over=["inputs"], for_all="every program, rule and option",
 why="The ported tests sample the language; types and syntax combine without bound.",
 files=["internal/rules"], mech=[("rules","internal/rules")],
 reason="""The specification is another program in another language that is not here, run on values (types) the engine computes at run time; equivalence of the two is out of reach of static analysis.
 What can be decided from the source about rules (names, options, messages, absence of crashes, determinism, termination) is claimed as C05, C09, C10, C11, C12, C18, C26."""),
dict(id="C22", title="Each file is linted by the project a TypeScript editor would open it with",
 statement="""Every requested file is checked with the compiler options of the tsconfig an editor would choose for it, following project references, and with the default options if there is none.""",
 over=["inputs"], for_all="every tree of directories, tsconfig files and references",
 why="Tests have a few fixed layouts; include patterns, references and files owned by several projects combine freely.",
 files=["internal/utils/find_tsconfig.go","cmd/tsgolint/headless.go"], mech=[("resolver","internal/utils/find_tsconfig.go")],
 reason="""The choice is made by the project service of the engine from the contents of files at run time (globs, extends, references); static analysis can say that
 the answer is used for the file (C06, C16), not that it is the right one."""),
]
