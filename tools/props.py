#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
C = "src/core/"; H = "src/helena_dialect/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in state])))

p("C01", "Tokenization is lossless and positions are exact",
  "For every source text, the concatenation of the token sequences produced by the tokenizer is the source text itself, each token carries the exact index, line and column where it starts, and each token has the kind and literal value prescribed by the lexical rules (whitespace, newlines, continuations, escapes, comments, delimiters, text). Feeding the tokenizer incrementally through its stream interface yields the same tokens as tokenizing at once.",
  ["inputs"], "all source texts: every byte string over the lexical classes, including multi-byte characters, escapes cut short by the end of input, and mixed newline forms",
  "the suite tokenizes a few hundred hand-picked strings; escape truncation, multi-byte text and position arithmetic across continuations are products of many lexical classes",
  [C+"tokenizer.go", C+"source.go"], [("single-pass state machine over the input", C+"tokenizer.go"), ("source cursor tracking index, line, column", C+"source.go")])
p("C02", "The parser accepts exactly the language and builds the right tree",
  "For every source text, parsing succeeds exactly when the text belongs to the Helena grammar, and it then produces the syntax tree (sentences, words, morphemes, their values and, when requested, their positions) that the grammar prescribes. Otherwise it reports the syntax error that describes the first offending construct, and it never crashes.",
  ["inputs"], "all token sequences, including every nesting of tuples, blocks, expressions, strings, here-strings, tagged strings, comments and substitutions, complete or truncated at any point",
  "tests parse chosen well-formed and malformed samples; the interaction of contexts (for example an unfinished comment inside an unfinished tuple, a substitution right before a closing delimiter) is a combinatorial space",
  [C+"parser.go", C+"tokenizer.go", C+"syntax.go"], [("context stack of the push-down parser", C+"parser.go"), ("end-of-stream checks", C+"parser.go")], [("contexts", "stack of open syntactic contexts with their morphemes")])
p("C03", "Parsing does not depend on how or how often the parser is driven",
  "Parsing a token sequence in one call, token by token through the incremental interface, or from a stream gives the same outcome. A parser object can be reused for any sequence of inputs, successful or failed, complete or abandoned, and every outcome is the one a fresh parser gives.",
  ["inputs", "histories"], "all inputs, all driving modes, and all sequences of inputs given to one parser",
  "tests use a fresh parser nearly everywhere and drive it incrementally on a handful of inputs; leaks of state between uses appear only for particular pairs of inputs",
  [C+"parser.go", C+"tokenizer.go"], [("stream begin/next/close protocol", C+"parser.go"), ("context reset on begin", C+"parser.go")], [("stream and context", "parser state that must be reset between inputs")])
p("C04", "Words evaluate according to their syntactic structure",
  "Every word is a root, compound, substitution, qualified, ignored or invalid word according to its morphemes, and evaluating a sentence substitutes, selects, joins and expands its words accordingly, left to right, evaluating each part exactly once. A script containing an invalid word reports an error and runs nothing, and a failure in any part of a sentence stops the evaluation there with that failure as its result.",
  ["programs"], "all sequences of morphemes in words and all sentences built from them, over all value kinds",
  "the tests cover the documented word forms with one or two morphemes; ordering, nesting and error propagation depend on arbitrary combinations",
  [C+"syntax.go", C+"compiler.go", C+"evaluator.go", C+"intrinsics.go"], [("word classification", C+"syntax.go"), ("compilation to stack opcodes and their execution", C+"compiler.go"), ("shared compiled scripts", C+"values.go")], [("operand stack and frames", "values of the words under evaluation"), ("last results", "per-program and per-frame results used by last-result and pipe words")])
p("C05", "Suspension and resumption are transparent",
  "Replacing any constant in a program by a yield that is resumed with that constant does not change the result or the effects of the program, wherever suspension is supported: in arguments, conditions, loops, handlers, guards, procedure bodies, subcommands or aliases (code that a command runs to completion in a process of its own, such as comparators or argument defaults, cannot be suspended). A resumed evaluation continues exactly where it stopped, repeats nothing and skips nothing, and interleaving several suspended evaluations does not make them interfere.",
  ["programs", "schedules"], "all programs, all positions and numbers of yields within them, and all orders of resumption of concurrently suspended evaluations",
  "each control command has a couple of yield tests at fixed places; yields inside nested constructs, in several places at once, and interleaved evaluations are not sampled",
  [C+"compiler.go", H+"core.go", H+"basic_commands.go", H+"controls.go", H+"logic.go", H+"ensembles.go", H+"aliases.go"], [("program state kept across yields", C+"compiler.go"), ("process stack of continuations", H+"core.go"), ("resumable commands", H+"controls.go")], [("program state", "program counter, stacks and pending command of a suspended evaluation"), ("process stack", "contexts of nested continuations")])
p("C06", "Displaying a value yields source text for the same value",
  "For every value made of nil-free data (booleans, numbers, strings, tuples, lists, dictionaries, blocks parsed from source, qualified names whose indexes are exact in double precision), the display form is valid source text, and evaluating it gives back an equal value. Displaying never alters the value and never crashes, even for values that have no display form.",
  ["inputs"], "all values, including all valid UTF-8 strings with every special character, nested collections and scripts with comments, strings and substitutions",
  "the display tests check a fixed output for some values and do not evaluate it back",
  [C+"display.go", C+"values.go", H+"lists.go", H+"dicts.go", C+"selectors.go"], [("display functions of each value kind", C+"values.go"), ("string quoting rules", C+"display.go")])
p("C07", "Selectors reach exactly the designated element of any value",
  "Applying an index, key or generic selector, directly or through a qualified name and at any depth of chaining, returns the designated element, or an error when the value is not selectable that way, the index is not an integer within bounds, or the key is unknown. Selection distributes over tuples element by element, keeps their shape, and selecting step by step equals selecting through one qualified name.",
  ["inputs", "programs"], "all values, all chains of selectors, all levels of indirection of variable names",
  "tests try single selectors on small samples of values; chains, tuples of names and mixed selectors multiply",
  [C+"selectors.go", C+"values.go", C+"compiler.go", H+"variables.go"], [("selector application", C+"selectors.go"), ("qualified value normalization", C+"values.go"), ("value resolution", C+"compiler.go")])
p("C08", "Diagnostics capture is faithful and changes nothing else",
  "Turning position and error-stack capture on changes neither the results nor the effects of any program. When a program fails, its error stack lists the sentences that were being evaluated from the innermost to the outermost, each with the values of its words and the exact source position where it starts (calls synthesized by commands have no position).",
  ["programs", "configurations"], "all programs under both settings; all failing programs with nested calls",
  "the tests capture the stack of some dozens of programs; results under both settings are never compared",
  [C+"compiler.go", C+"errors.go", H+"core.go", C+"parser.go"], [("position recording per opcode", C+"compiler.go"), ("error stack accumulation while unwinding", H+"core.go")], [("error stack", "levels pushed while an error unwinds")])
p("C09", "Control structures run exactly the right bodies in the right order",
  "Conditionals, when-cases and loops evaluate their tests in order, each as often as prescribed and no more, run exactly the selected body, and give the value of the last body that completed. Break and continue affect the innermost loop only, other result codes leave it unchanged, multi-source loops advance all sources in step until all are exhausted, and malformed clauses are reported as errors.",
  ["programs"], "all combinations of tests, bodies, sources and result codes, nested to any depth",
  "the tests check each clause form with constant tests; combinations of codes in tests, sources and bodies, and nested loops, are not covered",
  [H+"controls.go", H+"logic.go"], [("resumable state machines of while, if, when, loop", H+"controls.go")], [("loop state", "current step, last result and sources of a running loop")])
p("C10", "Result codes propagate, and catch intercepts them precisely",
  "Every result code (return, yield, error, break, continue, pass) propagates outwards unchanged through scripts until a construct handles it; catch runs exactly the handler for the body's code with its value bound, then the finally handler, and its outcome follows the documented rules, including pass and codes raised by handlers. The handler-less form always reports the code and value of the body.",
  ["programs"], "all combinations of body codes, handlers, handler codes and finally codes, nested, and with yields at any place",
  "tests fix one code at a time; the product of body, handler and finally outcomes with suspension is far larger",
  [H+"controls.go", H+"basic_commands.go", H+"core.go"], [("catch state machine", H+"controls.go"), ("result passing between process contexts", H+"core.go")])
p("C11", "Arithmetic, comparisons and logic compute the documented results",
  "Prefix and infix arithmetic give the mathematical value of their operands with the usual precedence in double precision, integers being returned as integers; comparisons agree with numeric order; boolean and logic commands follow truth tables and evaluate only the operands they need. Any operand that is not a number or boolean, and any malformed operator sequence, is reported as an error.",
  ["inputs", "programs"], "all operand tuples and operator sequences, including extreme, fractional, negative and non-finite numbers",
  "tests use a few operands per operator; precedence with long operator sequences and numeric edge cases are unbounded",
  [H+"math.go", H+"numbers.go", H+"logic.go", C+"values.go"], [("infix sum-of-products evaluation", H+"numbers.go"), ("number conversions", C+"values.go")])
p("C12", "Variables and constants keep their contract over any history",
  "After any sequence of definitions, assignments, queries and removals, reading a name gives the last value stored under it, constants are never redefined, shadowed or removed, and locals are protected in the same way. A failed operation changes nothing.",
  ["histories"], "all sequences of let, set, get, exists and unset over all names, tuples of names and scopes",
  "tests apply two or three operations per case; properties over histories need all sequences",
  [H+"variables.go", H+"core.go"], [("scope context maps", H+"core.go"), ("check-before-apply", H+"variables.go")], [("constants, variables, locals", "bindings of a scope")])
p("C13", "Scopes isolate names and code runs in its defining or calling scope",
  "Procedures see only their arguments and the commands of enclosing scopes; closures read and write the variables of their defining scope; macros those of their caller; locals never leak out of the body that introduces them nor into code defined elsewhere. Guards, default values and bodies are evaluated in the scope prescribed for each kind of command, and return, break and other codes crossing the boundary are converted as prescribed.",
  ["programs", "histories"], "all nestings of definitions and calls, across all kinds of scopes, with recursion and redefinition",
  "tests define one command and call it once or twice; crossing several boundaries with shared names is not enumerated",
  [H+"scopes.go", H+"closures.go", H+"macros.go", H+"procs.go", H+"core.go"], [("scope chain and local slots", H+"core.go"), ("captured scopes", H+"closures.go")], [("scope chain", "contexts with parent links"), ("local slots", "names introduced by a body")])
p("C14", "Destructuring is all or nothing",
  "Assigning a tuple of values to a tuple of names, at any nesting depth and in any command that binds names, binds each name to the value at the same place, extra values being ignored. If the shapes do not match or any name cannot be bound, nothing is bound.",
  ["inputs", "histories"], "all pairs of shapes and values, over any prior state of bindings, in every binding command",
  "tests use a few shapes; a partial assignment appears only when a late element fails after earlier ones succeeded",
  [H+"core.go", H+"variables.go", H+"controls.go", H+"lists.go", H+"dicts.go"], [("two-pass destructuring", H+"core.go")])
p("C15", "Argument specifications bind every call correctly",
  "For every argument specification (required, optional, default, remainder, guarded arguments, options and flags in any order) and every list of values, either each argument receives the value that the specification prescribes, or the call is rejected with an error and nothing is bound. Malformed specifications are rejected when they are defined, usage texts describe the specification, and defaults and guards are evaluated once per call and only when needed.",
  ["inputs"], "all specifications and all value lists",
  "tests check selected specifications against selected value lists; distribution between optionals, remainder and options is a combinatorial problem",
  [H+"argspecs.go", H+"arguments.go"], [("argument building and validation", H+"arguments.go"), ("value distribution", H+"argspecs.go")])
p("C16", "Values are immutable and never aliased",
  "No operation changes a value that is already stored in a variable, element or closure: after any sequence of operations deriving values from other values, every earlier value still reads the same. Arguments kept by a suspended or deferred evaluation are not affected by later calls.",
  ["histories"], "all sequences of operations over shared values",
  "the tests look at the result of an operation and rarely at its operands, and never after several derivations from the same value",
  [H+"lists.go", H+"dicts.go", H+"strings.go", H+"tuples.go", H+"argspecs.go", H+"ensembles.go", C+"values.go"], [("copy before modification", H+"lists.go"), ("in-place argument shifting", H+"ensembles.go")])
p("C17", "List operations are exact over every list and index",
  "Every list operation (conversion, length, element access, range, append, insert, remove, replace, sort, iteration) returns exactly what its definition as a sequence operation prescribes, for every list given as a list, tuple or block, and every integer index including negative, oversized and extreme ones. Invalid inputs are reported as errors.",
  ["inputs"], "all lists, all indexes and ranges, all element values",
  "tests use one list of three elements and a few indexes",
  [H+"lists.go", H+"tuples.go"], [("range clamping", H+"lists.go")])
p("C18", "String operations are exact over every string and index",
  "Every string operation (conversion, length, character access, range, append, insert, remove, replace, comparisons) returns exactly what its definition as a sequence of bytes prescribes, for every string including empty, multi-byte and special ones, and every integer index including negative, oversized and extreme ones. Comparisons agree with one total order, and invalid inputs are reported as errors.",
  ["inputs"], "all strings, all indexes and ranges, all operands",
  "tests use one or two ASCII strings and a few indexes",
  [H+"strings.go", C+"values.go"], [("range clamping", H+"strings.go"), ("comparison operators", H+"strings.go")])
p("C19", "Dictionaries behave as finite maps over any history",
  "After any sequence of dictionary operations (creation, addition, replacement, removal, merge), size, membership, lookup, keys, values, entries and iteration agree with the finite map obtained by applying the same operations. Invalid keys, odd element lists and unknown keys are reported as errors.",
  ["histories", "inputs"], "all sequences of dictionary operations over all keys and values",
  "tests check each operation on one small dictionary",
  [H+"dicts.go", C+"values.go"], [("copy-on-write maps", H+"dicts.go")])
p("C20", "Coroutines follow their life cycle and exchange values exactly",
  "A coroutine starts inactive, runs when waited on up to its next yield, receives the value it is resumed with, and becomes done for good when its body ends, whatever the way; its status queries always tell the truth and each call is accepted or rejected accordingly. Several coroutines driven in any order, from inside or outside each other, never interfere.",
  ["histories", "schedules"], "all sequences of waits, yields and queries over several coroutines with all kinds of bodies",
  "tests drive one coroutine through a fixed scenario",
  [H+"coroutines.go", H+"core.go"], [("coroutine state machine", H+"coroutines.go")], [("state", "inactive, active, done"), ("process", "suspended evaluation of the body")])
p("C21", "Ensembles dispatch exactly to their subcommands",
  "Calling an ensemble with enough arguments and a subcommand name calls that subcommand with the ensemble arguments, checked and converted by their guards, first and the other arguments next, in the caller's scope, and returns its result; without subcommand it returns its arguments. Extending an ensemble, nesting ensembles, querying subcommands and calling through metacommands are consistent with the same rules after any history, whatever the names under which commands were imported.",
  ["programs", "histories"], "all ensembles with any number of arguments, guards and subcommands, all calls, all histories of extension",
  "tests define ensembles with at most two arguments and constant subcommands",
  [H+"ensembles.go", H+"argspecs.go"], [("argument shifting on dispatch", H+"ensembles.go"), ("subcommand suspension", H+"ensembles.go")])
p("C22", "Namespaces encapsulate commands and variables consistently",
  "A namespace exposes exactly the commands defined in its body: calling one as a subcommand runs it inside the namespace, key selection reads its variables, importing copies the command under its own or another name, and evaluating code in it extends it. Nothing defined inside is visible outside unless imported, and outer commands are visible inside unless overridden, after any history.",
  ["programs", "histories"], "all namespaces, nested and extended, all calls and imports",
  "tests use one namespace with one or two commands",
  [H+"namespaces.go", H+"core.go"], [("child scope with parent command lookup", H+"namespaces.go")])
p("C23", "Aliases, tuples and currying call the same command as the full sentence",
  "Calling an alias, a tuple command or a nested combination of them with arguments behaves exactly like the sentence obtained by replacing it with the words it stands for, including results, yields and errors. Aliases are resolved at call time in the calling scope, so that redefinitions take effect.",
  ["programs", "histories"], "all nestings of aliases and tuple commands over all commands and arguments",
  "tests use one level of alias or tuple over a few commands",
  [H+"aliases.go", H+"core.go", H+"basic_commands.go"], [("leading tuple expansion", H+"core.go"), ("resumption through the expanded command", H+"aliases.go")])
p("C24", "Modules are isolated, loaded once, and export only what they declare",
  "Each module runs in its own root scope, shares nothing with its importers but exported commands, and is loaded exactly once whatever the order and number of imports; circular imports are rejected and a failed load leaves no trace that prevents later loads. Imports give access to exactly the exported names, under their own or the requested names.",
  ["configurations", "histories"], "all graphs of module files, all sequences of imports and reloads, with failing and malformed modules",
  "tests import five fixed module files",
  [H+"modules.go"], [("module registry with reserved names", H+"modules.go"), ("export tables", H+"modules.go")], [("registry", "modules loaded by path"), ("reserved names", "modules being loaded")])
p("C25", "Independent interpreters do not interfere when run concurrently",
  "Programs evaluated by separate interpreters in separate threads give the results they give alone, under every interleaving, when the interpreters share neither scopes, values nor a module registry. No data race is possible on state shared between interpreters.",
  ["schedules"], "all interleavings of the shared-state accesses of concurrent evaluations, and all reuse orders of recycled objects",
  "the tests are single-threaded",
  [H+"core.go", H+"controls.go", H+"logic.go", C+"compiler.go"], [("object pools shared between interpreters", H+"core.go"), ("pools of command states", H+"controls.go")], [("pools", "recycled program states, continuations and command states")])
p("C26", "Arity checks, usage and help agree for every command",
  "For every command and subcommand, a call is accepted only with the number of arguments stated by its usage, every rejection names that usage, and help returns the same usage or rejects exactly the argument lists that no call could extend. Help on user-defined commands, nested in namespaces and ensembles at any depth, shows the remaining arguments.",
  ["inputs"], "all commands and subcommands with any number of arguments",
  "tests check one excess and one missing argument for most commands",
  [H+"arguments.go", H+"argspecs.go", H+"basic_commands.go", H+"ensembles.go", H+"namespaces.go"], [("arity checks in each command", H+"basic_commands.go"), ("usage building", H+"argspecs.go")])
p("C27", "No script can crash the host",
  "Whatever the source text and whatever the sequence of scripts, evaluation ends with a result or a reported error: no input makes the interpreter panic, and results, errors and their call stacks can be displayed. This holds for every command with any number and any kinds of arguments, with diagnostics capture on or off.",
  ["programs", "inputs", "configurations"], "all programs; in particular all commands applied to all kinds of values",
  "tests pass well-typed arguments or one chosen ill-typed argument",
  [H+"basic_commands.go", H+"controls.go", H+"lists.go", H+"strings.go", H+"numbers.go", H+"arguments.go", C+"compiler.go", C+"parser.go"], [("type checks before conversions", H+"controls.go"), ("error results instead of panics", C+"values.go")])
p("C28", "The Picol dialect computes what its Tcl-like semantics prescribe",
  "Programs of the minimal dialect (arithmetic, comparisons, conditionals, loops, variables, procedures with defaults and remainders, result codes) give the result that its semantics prescribe for every combination of commands and operands; equality is textual, for values that have a string representation. Invalid operands and arguments are reported as errors and never crash the host.",
  ["programs"], "all programs over the dialect's commands",
  "tests check each command on a few operands",
  ["src/picol_dialect/picol_dialect.go", C+"compiler.go"], [("command table and scopes", "src/picol_dialect/picol_dialect.go")])
p("C29", "The regular expression extension agrees with the regexp library",
  "For every pattern, string and option, the native regular expression commands give the matches, submatches, indexes, replacements and splits that the underlying library gives for the same arguments, and report invalid patterns and arguments as errors. Using a compiled expression never changes it, except for the switch to leftmost-longest matching.",
  ["inputs", "histories"], "all patterns, inputs, limits and sequences of calls on shared expressions",
  "tests call each subcommand once or twice",
  ["src/native/go_regexp/go_regexp.go", "src/native/go_regexp/module.go"], [("argument conversion around the library", "src/native/go_regexp/go_regexp.go")])
p("C30", "Scripts are values: parsing, splitting and evaluation are consistent",
  "Parsing a text gives the same script as writing it as a block; splitting a script and appending the pieces gives back a script that evaluates identically, and its length is its number of sentences. A script evaluates to the same result each time and wherever it is used (as code in any scope, or as a list of words), whatever it was used for before.",
  ["programs", "histories"], "all scripts, all decompositions, and all sequences of uses of one script value in all roles",
  "tests use a script value once, in one role",
  [H+"scripts.go", C+"values.go", H+"core.go", H+"lists.go"], [("compiled program and list caches attached to script values", C+"values.go"), ("script operations", H+"scripts.go")], [("script cache", "compiled program and list values shared by all the uses of a script")])
p("C31", "The shell evaluates each complete input once and reports it faithfully",
  "Lines given to the helena shell are joined until they form a complete script (open blocks, tuples, expressions, strings, comments and a trailing continuation wait for more lines); each complete script is evaluated exactly once in one scope kept for the whole session, with the value of the previous one available to pipes, and its value and type, or its error after the stack of the failing sentences, is printed. Malformed and failing inputs leave the session usable. Given a file, the shell evaluates it and prints the result with a zero status, or the error with a nonzero status; sourced files, modules, native modules and Picol scripts behave as through the embedding interface.",
  ["histories", "inputs"], "all sequences of lines, complete or not, valid or not, and all files",
  "the shell has no test; its behaviour depends on the sequence of lines (pending input, last result, definitions, loaded modules)",
  ["src/cli/cli.go", "src/native/go_os/go_os.go", "src/native/go_slog/go_slog.go", C+"parser.go"], [("accumulation of lines until the parser accepts the stream", "src/cli/cli.go"), ("error stack display", "src/cli/cli.go")], [("pending input", "lines of an incomplete script"), ("last result", "result of the previous input")])
p("C32", "The execution engine keeps its contract with any embedder",
  "For every script and every set of resolvers an embedder supplies (including absent ones and ones that refuse or fail) and for commands that suspend any number of times and give any result code, execution performs exactly the resolutions and calls that the structure of the script prescribes: the same names, arguments, selection rules, context and resumption data, in the same order and number, and with the same outcome. This holds whether the script is evaluated whole, by sentence, by word or as a list of words; in one go or stopped and continued at any operation; with a fresh or a reset state, with several states sharing one program and executor; and with or without positions. Malformed words are reported as errors by the evaluator.",
  ["programs", "schedules", "configurations"], "all scripts, resolver behaviours, stop points and interleavings of states of one program",
  "tests run programs in one go with one set of mock resolvers",
  [C+"compiler.go", C+"evaluator.go", C+"selectors.go", C+"values.go", C+"resolvers.go"], [("program state: stack, frames, results, counters", C+"compiler.go"), ("resolution of variables, commands and selectors", C+"compiler.go"), ("evaluator entry points", C+"evaluator.go")], [("program state", "stack, frames, frame results and counters of a suspended execution")])
p("C33", "The native modules do exactly what the host functions they expose do",
  "Reading a file from a script gives exactly the bytes the file has at that time, whatever they are, or an error if it cannot be read, and never changes it. Each logging call whose level the current logger accepts emits exactly one record, with the given level and message and nothing else, in order; others emit none. Native modules export exactly their command, and what one interpreter imports, redefines or logs has no effect on another.",
  ["inputs", "histories"], "all contents, names and histories of changes of files, all sequences of logging calls and loggers",
  "the os and slog modules have no test",
  ["src/native/go_os/go_os.go", "src/native/go_slog/go_slog.go", "src/native/go_os/module.go", "src/native/go_slog/module.go"], [("methods of the os command", "src/native/go_os/go_os.go"), ("methods of the slog command", "src/native/go_slog/go_slog.go")], [("file system", "contents of the files read"), ("logger", "records emitted")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
