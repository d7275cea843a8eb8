#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit titles/statements/anchors)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Tokenization is lossless, correctly positioned and lexically exact",
"For every source text, the source sequences of the tokens concatenate back to exactly that text, and each token carries the index, line and column of its first character. Each token's kind and decoded literal follow the lexical rules (whitespace runs, newlines, line continuations, comment and string delimiter runs, one-character delimiters, escape sequences, text runs), for any characters including non-ASCII ones. Pulling tokens one at a time from a stream gives the same tokens as tokenizing the whole text at once.",
["inputs"],"all byte strings, in particular dense mixes of delimiters, escapes (octal, \\x, \\u, \\U of every digit count), continuations, non-ASCII text and every truncation point",
"The tokenizer tests check some sixty hand-written strings; losslessness and positions must hold for every text and every token boundary.",
["core/tokenizer.go"],[("token accumulation and emission","core/tokenizer.go: Tokenizer.Next/addToken/addText"),("escape decoding","core/tokenizer.go: Tokenizer.Next"),("cursor line/column tracking","core/tokenizer.go: sourceCursor")],
["the token list returned for a source text"])

p("P02","Any source text is either turned into a program or cleanly rejected",
"For every text whatsoever, tokenizing, parsing, compiling and submitting it to an interpreter terminates and either produces a program or reports an error message; it never crashes the host process. Submitting the same text twice gives the same outcome, and a rejected text leaves the interpreter fully usable.",
["inputs"],"all byte strings: random bytes, token soups, mutated valid scripts, unterminated and mismatched constructs, ill-formed words at any nesting depth",
"Tests only feed texts whose outcome is known in advance; a crash hides in a combination nobody wrote down (a construct closed exactly at end of input, an ill-formed word inside a list).",
["core/tokenizer.go","core/parser.go","core/syntax.go","core/compiler.go","core/evaluator.go","helena_dialect/core.go"],
[("parse errors as results","core/parser.go: PARSE_ERROR, parseToken"),("word structure checking before emission","core/syntax.go: SyntaxChecker.CheckWord"),("word errors in compilation","core/compiler.go: emitWord/emitStems")],
["parse result success/message","result of running the compiled script"])

p("P03","Parsing recovers exactly the syntactic structure that was written",
"For every syntax tree made of sentences, words and morphemes (literals, tuples, blocks, expressions, strings, here-strings, tagged strings, line and block comments, substitutions and expansions), writing it out as source text and parsing that text gives back the same tree, whatever whitespace, newlines, semicolons and line continuations separate the parts. When position capture is on, each node's position is where its source text starts, and turning it on does not alter the tree. The text value of a block is its source contents with escapes and continuations decoded.",
["inputs","programs"],"all syntax trees up to a bounded size, with every delimiter length, nesting and separator choice",
"Parser tests list individual constructs; combinations of nested constructs, delimiter lengths and separators are unbounded.",
["core/parser.go","core/tokenizer.go"],
[("context stack per open construct","core/parser.go: pushContext/popContext"),("delimiter matching","core/parser.go: closeHereString, closeTaggedString, closeBlockComment"),("substitution tracking","core/parser.go: beginSubstitution/continueSubstitution/endSubstitution")],
["the script tree returned by the parser"])

p("P04","Batch and incremental parsing agree, and unfinished input is told apart",
"For every token sequence, parsing it at once, from a stream, or one token at a time gives the same tree or the same error message. A text cut in the middle of an open construct is reported as unfinished (never accepted as complete and never rejected outright as invalid), and is accepted once the rest is appended. A parser object can be reused for another text after any outcome with no influence of the earlier one.",
["inputs","histories"],"all token sequences and cut points of valid scripts; histories of several parses through one parser object",
"Tests exercise incremental parsing on a handful of scripts, and none at every cut point or across parser reuse.",
["core/parser.go","core/tokenizer.go","cli/cli.go"],
[("incremental parser","core/parser.go: Begin/Next/End/CloseStream"),("end-of-stream checks per context","core/parser.go: CloseStream"),("lookahead","core/parser.go: expectSource")],
["parse result of the three modes","error message at end of stream"])

p("P05","Running a script has the effect the evaluation rules prescribe",
"For every script, compiling and running it gives the same result, and calls the same commands with the same arguments in the same order, as evaluating its syntax tree directly by the language rules: sentences in order, words left to right, each substitution and nested expression evaluated exactly once, tuples expanded where requested, compound words and strings joined from their parts, and index, key and generic selectors applied left to right. Evaluation stops at the first sentence that does not complete normally and its result is the script's result; positions and capture options never change this.",
["programs","inputs"],"all well-formed scripts up to bounded size and depth, over all word shapes (roots, compounds, substitutions with multiple dollars, expansions, qualified words, indirect substitution, ignored words), all selector combinations, with traced commands returning any result code",
"The compiler and evaluator tests check each word shape in isolation; the code generator must be right for every nesting of them, and on order and exactly-once effects which tests rarely observe.",
["core/compiler.go","core/evaluator.go","core/syntax.go","core/selectors.go","core/values.go","core/resolvers.go"],
[("opcode emission per word type","core/compiler.go: emitWord/emitRoot/emitCompound/emitSubstitution/emitQualified/emitStems"),("virtual machine","core/compiler.go: Executor.ExecuteUntil, ProgramState"),("selector application","core/selectors.go, core/values.go: SelectIndex/SelectKey/Select")],
["result code and value","sequence of command calls with their arguments"],
[("frame stack","arguments under construction per nesting level","core/compiler.go: ProgramState")])

p("P06","Displayed values read back as the same values",
"For every value made of strings, numbers, booleans, tuples, lists, dictionaries, blocks written without escape sequences, and names qualified with numeric indices within double precision, keys and rules, its displayed form is valid source text which reads back as an equal value (numbers and booleans as their literal form, lists and dictionaries through the displayed constructor command). Strings may hold any characters. Displaying the same ordered value always gives the same text, and displaying never fails for any value.",
["inputs"],"all values up to bounded size and depth, with strings over arbitrary characters (quotes, backslashes, delimiters, control characters, non-ASCII) and blocks over all syntax",
"Display tests check some twenty strings; readable-back display is a round-trip over all values and all characters.",
["core/display.go","core/values.go","core/selectors.go","helena_dialect/lists.go","helena_dialect/dicts.go"],
[("string and block quoting","core/display.go: DisplayLiteralOrString/DisplayLiteralOrBlock"),("value display","core/values.go: Display methods"),("list/dict display","helena_dialect/lists.go, dicts.go: DisplayListValue/DisplayDictionaryValue")],
["displayed text and its evaluation"])

p("P07","Conversions between strings, integers, reals and booleans are exact",
"For every value, converting it to boolean, integer, real or string either gives the mathematically exact counterpart (for reals, the nearest representable number) or an error, never a silently altered value: integers over their whole 64-bit range survive the string round-trip, reals print as a form that reads back to the same real, and a string is accepted as a number exactly when it is a well-formed numeral. Conversion is the same whichever way it is reached (host API, conversion command or implicit conversion by a command).",
["inputs"],"all 64-bit integers, all finite reals and special ones, and strings that are numerals, near-numerals (signs, exponents, hex, spaces, underscores, overflow) or arbitrary text",
"Tests convert a dozen constants; the edges (64-bit limits, exponent forms, fractional reals, whitespace) form the input space.",
["core/values.go","helena_dialect/numbers.go","helena_dialect/logic.go","helena_dialect/strings.go"],
[("numeric parsing","core/values.go: StringIsInteger/ValueToInteger/StringIsNumber/ValueToFloat"),("boolean parsing","core/values.go: ValueToBoolean"),("string form","core/values.go: valueToString")],
["conversion result and error"])

p("P08","List and tuple commands compute the sequence they are named after",
"For every list or tuple and every argument, length, at, range, append, remove, insert, replace, sort, foreach and conversions give exactly what the corresponding operation on a mathematical sequence gives, with out-of-range indices clamped or rejected as documented by their errors and defaults. No operation ever modifies a value that is already held elsewhere: every list, tuple and variable observed before the operation is unchanged after it. foreach visits each element exactly once in order and honours break, continue, return, yield and errors.",
["inputs","histories"],"all lists/tuples up to bounded length, all indices including negative, reversed, huge and non-integer ones, and all histories of operations over shared values",
"Tests use fixed three-element lists; clamping, aliasing and overflow only show for particular lengths, capacities and index combinations and in sequences of operations.",
["helena_dialect/lists.go","helena_dialect/tuples.go","core/values.go","helena_dialect/arguments.go"],
[("range clamping and slicing","helena_dialect/lists.go: listRange/Remove/Insert/Replace commands"),("append by copy","helena_dialect/lists.go: listAppendCmd"),("iteration","helena_dialect/lists.go: listForeachCmd")],
["command result","later reads of previously obtained values"])

p("P09","String commands compute the text they are named after",
"For every string and every argument, length, at, range, append, remove, insert, replace, equality and ordering give exactly what the corresponding operation on the sequence of its positions gives, and these views agree with one another (at equals a one-position range, length equals the number of positions, remove and range are complementary, insert and replace are splices). Out-of-range indices are clamped, defaulted or rejected with an error, and operands are never modified.",
["inputs"],"all strings (empty, ASCII, non-ASCII, control characters), all indices including negative, reversed and 64-bit extremes, all operand value types for comparisons",
"Tests use the word 'example' and ASCII indices; index arithmetic and non-ASCII text are where views diverge.",
["helena_dialect/strings.go","core/values.go"],
[("index clamping and slicing","helena_dialect/strings.go: range/remove/insert/replace commands"),("element access","core/values.go: StringAtOrDefault"),("comparison","helena_dialect/strings.go: binaryCmd")],
["command result"])

p("P10","Dictionary commands behave as a finite map",
"For every dictionary and every argument, size, has, get, add, remove, merge, keys, values, entries, foreach and conversion from and to lists give exactly what the corresponding operation on a finite map from strings to values gives, a later binding replacing an earlier one. No operation ever modifies a dictionary that is already held elsewhere, and keys, values, entries and iteration are consistent with one another as sets.",
["inputs","histories"],"all dictionaries up to bounded size with arbitrary keys, all histories of operations over shared dictionaries, key tuples, defaults and duplicate keys",
"Tests use two or three fixed keys and rarely look at the original after an update.",
["helena_dialect/dicts.go","core/values.go"],
[("copy-on-write updates","helena_dialect/dicts.go: add/remove/merge commands"),("lookup","core/values.go: DictionaryValue.SelectKey; helena_dialect/dicts.go: dictGetCmd"),("iteration","helena_dialect/dicts.go: dictForeachCmd")],
["command result","later reads of previously obtained dictionaries"])

p("P11","Arithmetic, comparison and logic operators are exact and short-circuit",
"For every operand list, the prefix and infix arithmetic operators, number comparisons and boolean operators give the value double-precision arithmetic and boolean logic prescribe, and equal results are reached by every notation (prefix, infix, variadic, chained). Logic operators evaluate operands left to right, stop at the first one that decides the result, and pass on any error or interruption raised by an operand. Non-numeric or non-boolean operands and wrong operand counts are rejected with an error.",
["inputs","programs"],"all operand lists up to bounded length over integers, reals and numeric strings including extremes, infix chains, and logic operands that are values or scripts with side effects and any result code",
"Tests check a few sums and pairs; operand types, precedence of chained operators and side-effect order form an unbounded product.",
["helena_dialect/math.go","helena_dialect/numbers.go","helena_dialect/logic.go"],
[("prefix arithmetic","helena_dialect/math.go"),("infix arithmetic and comparison","helena_dialect/numbers.go: arithmetics, binaryOp, floatToValue"),("short-circuit logic","helena_dialect/logic.go: and/or/not commands")],
["command result","order of operand side effects"])

p("P12","Variables, constants and locals follow scoping rules over any history",
"Over any history of let, set, get, exists, unset and scope creation, every name reads as its latest binding visible from that scope: constants can never be changed, rebound or removed, child scopes see what their rules say and never leak bindings outwards. Destructuring a tuple binds each name to the matching part, and any assignment that fails, at any depth, changes nothing at all. Reads through selectors and defaults agree with plain reads.",
["histories","inputs"],"all histories of variable operations over a small name pool, nested name/value tuples with valid, missing and conflicting parts, and several interleaved scopes, closures and namespaces",
"Tests check single transitions; atomicity and isolation concern every interleaving of successful and failing operations.",
["helena_dialect/variables.go","helena_dialect/core.go","helena_dialect/scopes.go","core/values.go"],
[("check pass before destructuring","helena_dialect/core.go: DestructureConstant/Variable/Local with check"),("constants/variables tables","helena_dialect/core.go: scopeContext"),("local slots","helena_dialect/core.go: NewLocalScope, ResolveVariable")],
["command results and later reads"],
[("scope tables","constants, variables, local slots and commands of a scope","helena_dialect/core.go: Scope, scopeContext")])

p("P13","Control flow commands deliver the prescribed result for every nesting",
"For every program built from conditionals, loops (counted, conditional and over sources), multi-way choice, catch with any set of handlers, and the return, error, break, continue, yield and pass commands, the order of side effects and the final code and value are those of structured evaluation: loops run each iteration once and react to break and continue, an uncaught interruption propagates to the enclosing construct that handles it, the matching handler runs once with the payload, and the finally part runs exactly once unless the handler itself is interrupted by an error or by a control code other than pass. It makes no difference whether the body is written inline or reached through commands.",
["programs"],"all programs up to bounded size and nesting over these commands, with every result code raised at every position, including inside tests, sources, handlers and finally parts",
"The control tests enumerate code by construct pairs; deeper nestings and codes raised inside handlers, tests and sources are beyond enumeration.",
["helena_dialect/controls.go","helena_dialect/basic_commands.go","helena_dialect/logic.go","core/results.go"],
[("state machines of loop/while/if/when","helena_dialect/controls.go: loopCmd, whileCmd, ifCmd, whenCmd"),("catch handler dispatch","helena_dialect/controls.go: catchCmd.run/findHandlerIndex"),("continuations","helena_dialect/core.go: ContinuationValue, Process.Run")],
["trace of side effects, final code and value"])

p("P14","Suspending and resuming is transparent",
"For every program that yields, resuming it with values continues exactly where it stopped, with all local state intact and nothing run twice or skipped: running to completion with resumptions has the same effects and result as the same program in which each yield is replaced by the value sent to it (yields intercepted by a catch excepted). This holds at any depth of nested commands, blocks, loops and calls, for any interleaving of several suspended processes and coroutines, and a coroutine reports its activity and completion faithfully and refuses further use once done, whatever way it ended.",
["programs","histories","schedules"],"all bounded programs with yields at any evaluation position, all sequences of resumption values, and all interleavings of several suspended coroutines and processes over shared variables",
"Tests yield once or twice in each command; state kept across suspension and interleavings of several suspended programs are not sampled.",
["helena_dialect/core.go","helena_dialect/coroutines.go","helena_dialect/basic_commands.go","core/compiler.go"],
[("process stack trampoline","helena_dialect/core.go: Process.Run, ProcessStack, YieldBack"),("resumable program state","core/compiler.go: ExecuteUntil, Resume"),("coroutine state machine","helena_dialect/coroutines.go")],
["yielded values, results, side-effect trace, coroutine done/active answers"],
[("process stack","programs and callbacks suspended in a process","helena_dialect/core.go: ProcessStack"),("pooled states","recycled continuation and program states","helena_dialect/core.go")])

p("P15","Arguments are bound to parameters exactly as the specification says",
"For every argument specification (required, optional, defaulted, guarded, remainder, options and flags) and every argument list, binding either succeeds, giving each parameter exactly the arguments its position and kind entitle it to with each argument used once, defaults computed only when the argument is absent and guards applied to every value that gets bound, or fails with an error and binds nothing. Arity acceptance agrees with binding, and every command that takes such a specification binds in the same way. Malformed specifications are rejected with an error.",
["inputs","configurations"],"all specifications up to bounded length over all parameter kinds, guards and defaults, and all argument lists from too short to too long, with options present, absent, repeated, permuted or incomplete",
"Tests pair about forty specifications with hand-picked argument lists; the product of kinds, positions and argument counts is where slot arithmetic breaks.",
["helena_dialect/argspecs.go","helena_dialect/arguments.go"],
[("specification parsing","helena_dialect/arguments.go: buildArguments/buildArgument/isOption"),("slot assignment","helena_dialect/argspecs.go: findSlots/setSlotValues/setPositionalSlotValues"),("guards and defaults","helena_dialect/argspecs.go: setSlotValue(s)")],
["bound values or error"])

p("P16","A command behaves the same however it is reached",
"For every command and arguments, calling it by name, through a command value, a tuple prefix, an alias, an ensemble or namespace subcommand, an imported name or a call/eval indirection passes the same arguments in the same order and gives the same result, code and side effects. Macros run in the caller's scope, closures in the scope that defined them and procedures in a fresh one, with arguments bound before the body and return handled as each kind prescribes. Redefinitions take effect on the next call and never alter commands captured earlier.",
["programs","histories"],"all bounded combinations of command kinds, wrappers and argument lists nested several levels deep, bodies ending with any result code, and histories of definitions, redefinitions and captures",
"Tests check each wrapper around one simple command; compositions of wrappers with suspended, failing or redefining bodies are not covered.",
["helena_dialect/aliases.go","helena_dialect/macros.go","helena_dialect/closures.go","helena_dialect/procs.go","helena_dialect/ensembles.go","helena_dialect/namespaces.go","helena_dialect/scopes.go","helena_dialect/core.go"],
[("prefix expansion","helena_dialect/core.go: ExpandPrefixCommand, resolveLeadingTuple"),("ensemble argument splitting","helena_dialect/ensembles.go: Execute/Resume"),("command resolution","helena_dialect/core.go: ResolveCommand/ResolveNamedCommand")],
["result, code and trace of the direct and indirect call"])

p("P17","Modules load once, stay isolated and export exactly what they declare",
"For every set of module files and import order, each module body runs at most once per registry however often and by whatever path it is imported, its variables and commands are invisible outside except for the exported commands, and those other than macros run in the module's own state wherever called. Missing files, parse errors, failing bodies, unknown exports and circular imports give an error naming the problem and leave every other module importable. Importing names, renamed names or the module itself under a name defines exactly these in the importer.",
["configurations","histories","fault_sequences"],"all bounded import graphs (chains, diamonds, cycles, failing nodes) over files in nested directories, import forms, and repeated import attempts after failures and repairs",
"Tests load five fixed files; graphs with sharing, cycles, failures and retries are not sampled.",
["helena_dialect/modules.go"],
[("registry and reservation","helena_dialect/modules.go: ModuleRegistry"),("import resolution","helena_dialect/modules.go: importModule/loadFileModule"),("exported command scope","helena_dialect/modules.go: exportedCommand")],
["load counters, results of imported commands, errors"])

p("P18","No script can crash the interpreter",
"For every script over the whole built-in vocabulary, with any values in any argument position, execution ends in a regular result (possibly an error), scripts which recurse or loop without bound excepted; it never brings down or corrupts the host process. After any such script the same interpreter still evaluates ordinary scripts correctly.",
["programs","inputs"],"all bounded programs over every built-in command and subcommand (including meta-commands and native modules) with arguments of every value type, wrong counts, extreme numbers, ill-typed bodies and specifications",
"Tests call commands with intended arguments and documented mistakes; robustness quantifies over every misuse.",
["helena_dialect/core.go","helena_dialect/controls.go","helena_dialect/lists.go","helena_dialect/strings.go","helena_dialect/dicts.go","helena_dialect/argspecs.go","helena_dialect/ensembles.go","helena_dialect/coroutines.go","core/compiler.go"],
[("argument validation in each command","helena_dialect/*.go: Execute methods"),("continuation handling","helena_dialect/core.go: Process.Run")],
["absence of a host panic; probe script afterwards"])

p("P19","Diagnostics never change results and point at the failing code",
"For every program, turning on position capture or error-stack capture changes neither its result nor its side effects. When a program fails with error-stack capture on, the stack lists the active calls from the failing command outwards, each level holding the words of that call and, with position capture, the position where that command is written in the source.",
["programs","configurations"],"all bounded programs, all four combinations of capture options, failures at any depth of nested expressions, blocks, calls and control commands",
"Tests look at a few two-level stacks; the invariance over all programs and options is not tested at all.",
["core/compiler.go","core/errors.go","core/parser.go","helena_dialect/core.go"],
[("opcode positions","core/compiler.go: PushOpCode, OpCodePositions"),("error stack building","helena_dialect/core.go: Process.Run; core/errors.go")],
["result with and without capture; error stack levels"])

p("P20","Independent interpreters do not influence one another",
"For every set of programs, running each in its own interpreter concurrently from several threads, or interleaved step by step in one thread, gives each exactly the results and side effects it has when run alone, with no data race. The same holds for programs that suspend, fail or are abandoned half-way.",
["schedules","programs"],"all sets of bounded programs exercising every construct that recycles internal state (calls, loops, conditionals, logic operators, catch, coroutines), under concurrent and step-interleaved execution",
"All existing tests are single-threaded and run one interpreter at a time, so shared recycled state is never contended.",
["helena_dialect/core.go","helena_dialect/controls.go","helena_dialect/logic.go","core/compiler.go"],
[("object pools","helena_dialect/core.go, controls.go, logic.go; core/compiler.go: sync.Pool users")],
["results per program under concurrency; race detector reports"],
[("pools","process-wide recycled objects","helena_dialect/*.go: sync.Pool variables")])

p("P21","The Picol dialect computes what its reference semantics prescribe",
"For every script in the embedded Picol dialect, the result, code and side effects are those of its Tcl-like semantics: procedures with defaults and trailing args, local frames, conditionals, while and for loops with break and continue, return, and arithmetic, comparison and logic operators with short-circuit evaluation; break and continue that reach the end of a procedure body are absorbed by it. Any misuse gives an error result and never brings down the host.",
["programs","inputs"],"all bounded Picol programs over all its commands, all value types in every argument position",
"The Picol tests check each command on constants; nestings, defaults with optional arguments and misuse are not sampled.",
["picol_dialect/picol_dialect.go"],
[("commands","picol_dialect/picol_dialect.go: simple commands and procCommand"),("condition evaluation","picol_dialect/picol_dialect.go: evaluateCondition")],
["result code and value, variables afterwards"])

p("P22","Native modules expose the host library faithfully",
"For every pattern, subject and limit, each regular-expression subcommand returns exactly what the corresponding function of the host's regular-expression library returns, mapped to strings, numbers, booleans and nested lists, with an error for an invalid pattern. Reading a file through the operating-system module returns exactly its contents, or an error if it cannot be read. A logging subcommand emits exactly one record with the given level and message. Misuse gives an error result and never brings down the host.",
["inputs"],"all patterns and subjects over a small alphabet with groups, alternations and anchors, all limits, literal and expanded replacement templates; all file contents",
"The regexp tests mirror one documentation example per function.",
["native/go_regexp/go_regexp.go","native/go_os/go_os.go"],
[("subcommand mapping","native/go_regexp/go_regexp.go: RegexpCmd.Execute"),("file reading","native/go_os/go_os.go: OsCmd.Execute")],
["command result"])

p("P23","Help and arity agree with what commands accept",
"For every built-in command and subcommand and every user command with an argument specification, a call is rejected for its argument count exactly when that count is outside the signature which help displays for it. Help on a call reports a wrong number of arguments exactly when there are too many of them, and otherwise displays the signature, whatever the number of arguments; for a call by name the signature in the call's error message is the one help displays. Help reports an unknown subcommand as the call does, and never executes the command.",
["configurations","inputs"],"all built-in commands, subcommands and metacommands, user macros, closures, procedures, ensembles (nested, multi-argument) and namespaces with random specifications, at every argument count",
"Tests check the help string and one wrong count per command; help and execution are separate code that must agree at every count.",
["helena_dialect/basic_commands.go","helena_dialect/argspecs.go","helena_dialect/ensembles.go","helena_dialect/namespaces.go","helena_dialect/lists.go","helena_dialect/dicts.go"],
[("help command","helena_dialect/basic_commands.go: helpCmd"),("per-command help","helena_dialect/*.go: Help methods"),("usage rendering","helena_dialect/arguments.go: BuildUsage")],
["help result and call result for the same words"])

p("P24","Deep recursion and long loops do not exhaust the host",
"Script-level recursion (through macros, closures, procedures, aliases, ensembles, conditionals, loops and evaluation) and iteration of any length run to the correct result without deepening the host's call stack: depth is limited by memory, not by nesting of host calls (catch bodies and handlers, argument guards, sort comparators and resumed coroutines, which run nested evaluations, excepted). Memory held by a finished call or iteration does not accumulate.",
["programs","inputs"],"all combinations of recursive constructs at depths and iteration counts up to tens of thousands",
"No test recurses deeper than a few calls, so a command that falls back to nested host execution passes them all.",
["helena_dialect/core.go","helena_dialect/controls.go","helena_dialect/macros.go","helena_dialect/closures.go","helena_dialect/procs.go"],
[("trampolined continuations","helena_dialect/core.go: Process.Run, ContinuationValue")],
["result under a bounded host stack"])

p("P25","Evaluating the same script or body again behaves like the first time",
"A script value, compiled program, macro, closure, procedure or loop body can be evaluated any number of times, nested within itself, interleaved, in different scopes and after failures or suspensions, and each evaluation has exactly the effect of evaluating a fresh copy of the same source. Parsing, splitting, appending and converting scripts preserve their sentences, and evaluating the parts in order is the same as evaluating the whole.",
["programs","histories"],"all bounded scripts, evaluated repeatedly in random sequences of scopes, after errors and interruptions, re-entrantly, and split and re-appended at random",
"Tests evaluate each body once or twice from clean state; caching and recycled state need a history.",
["helena_dialect/core.go","helena_dialect/scripts.go","core/compiler.go"],
[("program caching","helena_dialect/core.go: CompileScriptValue"),("script commands","helena_dialect/scripts.go: append/split/parse"),("state reset","core/compiler.go: ProgramState.Reset")],
["results and traces of repeated evaluations"],
[("cached program","compiled form kept with the script value","core/values.go: ScriptValue")])

p("P26","The command-line interpreter runs scripts as the host API does",
"Running a script file prints the displayed result and exits with success, or prints the error message and exits with failure, exactly as evaluating the same text through the host API would, and never ends in a crash trace. In interactive mode, each complete input is evaluated once in one lasting session whatever lines it is split over, unfinished input waits for more lines, and an error leaves the session usable.",
["programs","histories"],"all bounded scripts as files, and all interactive sessions made of several inputs split over lines at any construct, including errors and unfinished constructs",
"The command-line front end has no tests at all.",
["cli/cli.go","main.go"],
[("script mode","cli/cli.go: source/sourceFile"),("interactive loop","cli/cli.go: prompt/run, recoverableError")],
["standard output, standard error and exit status of the built program"])

with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
