"""Writes properties.jsonl and MANIFEST.json. One table, so the two stay in step."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


prop("C01", "Expressions evaluate to the value the language defines",
     "For every well typed expression built from literals, variables, calls, parentheses and the unary and binary operators, the compiled program computes the value the documentation defines: `^` binds tightest, then unary `not - *`, then `* / mod`, `+ -`, `and or xor << >>`, and last `is isnt < > <= >=`, all binary operators are left associative and parentheses override. "
     "Int is a 64 bit integer (`/` truncates, `mod` takes the sign of the left side, `<<` and the logical `>>` shift), Float an IEEE double (`^` is pow, `mod` is fmod), `is`/`isnt` compare Int, Float, Bool, Rune, and Str by value. "
     "Every operand, including both sides of `and`/`or`, is evaluated exactly once, left to right.",
     ["programs", "inputs"], "All well typed expressions of any shape and nesting, with all operand values for which the result is defined (no overflow, division by zero, negative Int exponent, or shift past 63).",
     "The tests compile a few fixed expressions and compare IR text; the value depends on each operator, operand type, nesting, constness and operand value at once.",
     ["skull/parse/ast_node.c", "skull/semantic/expr.c", "skull/codegen/llvm/expr.c", "skull/shim.ll"],
     [("precedence climbing", "skull/parse/ast_node.c parse_expression, _parse_binary_op"), ("operator dispatch", "skull/codegen/llvm/expr.c gen_expr and create_* functions"), ("operator typing", "skull/semantic/expr.c validate_expr")],
     "property-based testing: random expressions vs reference evaluator", "Differential testing of compiled programs against an independent interpreter written from the docs.")
prop("C02", "Programs do what their statements say",
     "Every valid program, compiled to a native binary, performs exactly the observable calls, in order and with the values, that its statements mean, and exits with the low byte of the Int that the main module returns (0 when it returns nothing). "
     "This holds for variable definition and assignment, `if`/`elif`/`else`, `while`, `break`, `continue`, early `return`, (recursive, nested) functions and parameters, namespaces, references and dereferences, and globals shared with functions, in any nesting. "
     "A variable defined in a loop is set anew by each iteration, and loops do not consume stack.",
     ["programs", "histories"], "All valid terminating programs in the subset (nested functions do not use non constant locals of the function around them), so all histories of statement executions.",
     "The tests check IR text of a handful of programs; none composes control flow, scopes and state the way programs do.",
     ["skull/codegen/llvm/flow.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/core.c", "skull/parse/ast_node.c"],
     [("basic block wiring", "skull/codegen/llvm/flow.c gen_control_if, gen_control_while, gen_control_break"), ("storage of variables", "skull/codegen/llvm/assign.c"), ("entry and exit code", "skull/codegen/llvm/write.c add_start_shim")],
     "property-based testing: random whole programs vs reference interpreter", "Programs are generated well typed and terminating; the reference interpreter decides output and exit code.")
prop("C03", "The C backend means the same as the language",
     "For every valid program in the subset the C backend supports, `skull --c-backend` emits C that `cc -include stdbool.h` accepts and that performs the same observable calls with the same values, in the same order, and the same exit code as the language defines, whatever the file is named (but for `@` and backslashes), and its exported symbols are those of an object file. "
     "The subset: no namespaces, references compared or initialised at top level only from variables, at most one call per expression and none in the right side of `and`/`or`, constant initialisers for top level variables, no `>>` on negative values, and names that are not C keywords, `init` or `main`.",
     ["programs"], "All valid terminating programs in the stated subset.",
     "The tests compare the C text of about a dozen one line programs and never compile or run it.",
     ["skull/codegen/c/expr.c", "skull/codegen/c/flow.c", "skull/codegen/c/assign.c", "skull/codegen/c/func.c", "skull/codegen/c/write.c"],
     [("expression printing", "skull/codegen/c/expr.c"), ("tree assembly", "skull/codegen/c/core.c, skull/codegen/c/flow.c")],
     "property-based testing: differential, emitted C compiled and run vs reference interpreter", "Uses the installed cc; the subset excludes the recorded limits of the C backend.")
prop("C04", "Optimisation and debug flags do not change behaviour",
     "For every valid program, the binaries made with any of -O1, -O2, -O3, combined with -g and/or --llvm-no-verify or not, produce the same observable calls, in the same order, with the same values, and the same exit code as the binary made with no flags. "
     "-S and -c emit assembly and object code which, assembled and linked, behave the same as well.",
     ["programs", "configurations"], "All valid terminating programs with defined behaviour times all combinations of the flags.",
     "The tests run each flag on one trivial file and only check that a file comes out.",
     ["skull/codegen/llvm/write.c", "skull/codegen/llvm/debug.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/flow.c"],
     [("pass pipeline", "skull/codegen/llvm/write.c optimize_llvm"), ("debug records", "skull/codegen/llvm/debug.c"), ("object and assembly output", "skull/codegen/llvm/write.c emit_stage_1")],
     "property-based testing: metamorphic over compiler flags, plus reference interpreter", "Every generated program is built under several flag sets and each binary is compared with the reference.")
prop("C05", "Types are strict: ill typed programs are rejected, well typed accepted",
     "The compiler accepts a program only if every operator, assignment, definition with an explicit type, argument, return value and condition has exactly the type required (no implicit conversion between Int, Float, Bool, Rune, Str, Void and references), and calls pass the exact number of arguments. "
     "A single type fault anywhere in an otherwise valid program, at any nesting depth, makes the compile fail with an error message and no output; without the fault it compiles. "
     "The type of an alias is the type it names.",
     ["programs"], "All valid programs, and all single type faults that can be injected into one.",
     "The tests list a few dozen ill typed one liners; whether every operand position in every context is checked needs generated programs.",
     ["skull/semantic/expr.c", "skull/semantic/assign.c", "skull/semantic/func.c", "skull/semantic/flow.c", "skull/semantic/types.c"],
     [("operator type rules", "skull/semantic/expr.c"), ("argument and return checks", "skull/semantic/func.c"), ("assignment checks", "skull/semantic/assign.c"), ("type names", "skull/semantic/types.c")],
     "property-based testing: accept valid programs, reject injected type faults", "The generator knows the type of each position, so a replaced subexpression is ill typed by construction.")
prop("C06", "Names resolve to what is in scope, once",
     "A name refers to exactly the variable, function, alias or namespace member declared with that name in an enclosing scope before the use; names that are undefined, out of scope, defined later, or members of another namespace are rejected. "
     "Declaring a name again while it is visible (including parameters, functions, aliases, externals and builtin types) is rejected, sibling scopes may reuse it, and constants, parameters and non variables can not be assigned to. An `import` of a module is accepted exactly when the module's file is beside the importing file. "
     "This holds for any number and spelling of names, and every accepted use reads or writes the storage of its own declaration.",
     ["programs", "inputs"], "All trees of scopes with any number of declarations, uses and assignments, and all identifier spellings, including ones with equal hashes.",
     "The tests use one or two names per program; tables, scopes and namespaces with many or colliding names are never exercised.",
     ["skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/semantic/variable.c", "skull/common/hashtable.c", "skull/semantic/assign.c", "skull/semantic/func.c", "skull/semantic/import.c"],
     [("scope chain and namespaces", "skull/semantic/scope.c scope_find_name, scope_add_symbol"), ("symbol table", "skull/common/hashtable.c"), ("const rules", "skull/semantic/assign.c")],
     "property-based testing: random scope trees and name uses vs a symbol table model", "Accept/reject from the model; accepted programs are run and compared with the reference.")
prop("C07", "Malformed statements and control flow are rejected",
     "A program compiles only if its statements are well formed and well placed: `elif`/`else` follow an `if`/`elif`, `break`/`continue` are in a loop, nothing but comments, `noop` and `unreachable` follows `return`, `break`, `continue` or `unreachable` in a block, functions that return a value end in a `return` of a value, exports and externals are at the top level, and brackets, quotes, comments, operators and blocks are complete; nor may it divide (`/`, `mod`) by a literal zero, however the zero is spelled. "
     "Injecting one such fault into a valid program, at any nesting depth, makes the compile fail with an error message, exit code 1 and no output.",
     ["programs"], "All valid programs and all single structural faults that can be injected at any statement position.",
     "The tests check each error in one minimal file, at the top level; nesting and neighbours are what change the outcome.",
     ["skull/semantic/flow.c", "skull/semantic/func.c", "skull/semantic/entry.c", "skull/parse/ast_node.c", "skull/parse/token.c"],
     [("placement rules", "skull/semantic/flow.c"), ("dead code", "skull/semantic/flow.c, skull/semantic/func.c"), ("statement grammar", "skull/parse/ast_node.c parse_ast_node")],
     "property-based testing: structural fault injection into valid programs", "Faults are invalid by construction at the position they are injected.")
prop("C08", "The compiler survives every input",
     "For every file content (arbitrary bytes, any mix of tokens, mutated or truncated programs), the compiler ends by itself with exit code 0 or 1 and without memory errors or undefined behaviour, and the code it generates passes LLVM's verifier (except for functions that use non constant locals of a function around them, which the documentation rules out). "
     "When it fails it says why on stderr and leaves no output file; when it succeeds the output exists (an empty file has none).",
     ["inputs"], "All byte strings up to a few KB, weighted towards token soup, grammar near misses and mutations of valid programs, in all output modes.",
     "The tests only contain files someone thought of.",
     ["skull/parse/token.c", "skull/parse/classify.c", "skull/parse/ast_node.c", "skull/common/str.c", "skull/semantic", "skull/codegen"],
     [("tokenizer", "skull/parse/token.c"), ("parser", "skull/parse/ast_node.c"), ("string and vector helpers", "skull/common")],
     "fuzzing: structured and byte level, address and undefined behaviour sanitizers", "The sanitized compiler runs each input in a fresh process; every failure must carry a diagnostic.")
prop("C09", "Diagnostics name the place of the fault",
     "When one fault is injected into a valid program, the error (or warning) that is printed has the form `<file>: Compilation error: line L column C: ...` where L and C (counted in characters from 1) are the position of the offending token, whatever precedes it: comments, strings, blank lines, multi byte characters, indentation. "
     "The message names the offending identifier or types. A fault inside of a larger expression is reported at a token of the statement that holds it (or, when something is never closed, at the token that comes instead). "
     "With colour on (--color or COLOR=1) the same text is printed with colour sequences added; otherwise there are none.",
     ["programs", "inputs"], "All valid programs with one injected fault whose offending token is known, in all layouts.",
     "The tests check messages in tiny files where the fault is on the first lines.",
     ["skull/parse/token.c", "skull/common/errors.c", "skull/semantic"],
     [("position tracking", "skull/parse/token.c iterate_newline, iter_comment, iter_quote"), ("message formatting", "skull/common/errors.c fmt_message")],
     "property-based testing: injected faults with known positions in random layouts", "The printer records the line and column of each token it emits.")
prop("C10", "Layout and comments do not change the meaning",
     "Changing only the layout of a program (indentation, spaces and tabs between tokens, blank lines, line and block comments at statement positions, where optional spaces around brackets and commas go, redundant parentheses, trailing commas in calls, a final newline) changes neither whether it compiles nor the code that is generated. "
     "Text inside of strings, runes and comments never changes how the rest is read.",
     ["programs", "inputs"], "All valid programs times all layouts that keep the token sequence.",
     "Tests have one layout per program.",
     ["skull/parse/token.c", "skull/parse/classify.c", "skull/parse/ast_node.c"],
     [("tokenizer states", "skull/parse/token.c tokenize"), ("token classes", "skull/parse/classify.c")],
     "property-based testing: metamorphic, IR of re-laid-out program is identical", "Compares the full emitted LLVM IR of both layouts.")
prop("C11", "Literals denote exactly their documented value",
     "Every Int (decimal, hex, octal, binary, underscores, the whole 64 bit range), Float (including Infinity and NaN), Bool, Rune (any code point, all escapes) and Str (any UTF-8 text, all escapes) literal compiles to exactly its documented value, as a constant, variable, argument, operand or return value. "
     "Malformed or out of range literals are rejected, never silently read as another value.",
     ["inputs"], "All spellings of literals and near misses of them.",
     "There are more than 2^64 literals; the tests have a few dozen.",
     ["skull/parse/classify.c", "skull/semantic/types.c", "skull/common/str.c"],
     [("literal recognition", "skull/parse/classify.c"), ("literal evaluation", "skull/semantic/types.c eval_integer, eval_float, eval_rune, eval_str"), ("escapes", "skull/common/str.c c32sunescape")],
     "property-based testing: random literal spellings vs independent decoder", "Values are observed bit for bit at run time through external calls.")
prop("C12", "C interoperability: calls, types and linkage follow the C ABI",
     "For every signature over the basic types, an `external` declaration calls the C function of that name with the arguments in order and gets its result, and an `export`ed function or constant can be called or read from C as `<module>.<name>` with the types of Skull.h (Bool is one byte, 0 or 1), after the module's init function `.<module>` ran. "
     "A reference is the address of the variable: what C writes through a reference to a `mut` variable is what the program reads afterwards. Functions and variables that are not exported never clash with C symbols of the same name, and several modules link together.",
     ["programs", "configurations"], "All signatures with up to 10 parameters, all argument values, all mixes of exported and private names, with and without optimisation.",
     "The tests check linkage in IR text; calls across the boundary with many arguments are never run.",
     ["skull/codegen/abi.c", "skull/semantic/mangle.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/Skull.h", "skull/codegen/llvm/core.c"],
     [("mangling", "skull/semantic/mangle.c, skull/codegen/abi.c"), ("declarations and linkage", "skull/codegen/llvm/func.c"), ("exported constants", "skull/codegen/llvm/assign.c")],
     "property-based testing: generated C counterpart linked and run", "The C side is compiled with the real cc against Skull.h and prints what it receives.")
prop("C13", "The command line does what the manual says, and failures leave no output",
     "For every combination and order of options with one file name, the compiler either rejects it with a message and exit code 1, or writes exactly the documented artefact (binary `file`, `.file.sk.o`, `.file.sk.s`, `.file.sk.c`, IR or C on stdout, or the file named with -o) and no other file (a native build uses `.file.sk.o` as scratch and removes it). "
     "A compile that fails for any reason exits with 1, says why on stderr, and neither creates nor changes any file (an output that cannot be written to its end is removed); unreadable, missing, misnamed inputs and unwritable outputs are reported; arguments after `--` reach cc; `import m` needs m.sk beside the file.",
     ["configurations", "inputs", "fault_sequences"], "All option sequences times valid/invalid/missing sources, file names and directories, and output faults.",
     "The tests run a dozen fixed command lines.",
     ["skull/cli.c", "skull/real_main.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/io.c", "skull/semantic/import.c"],
     [("option parsing", "skull/cli.c handle_args, build_data_valid"), ("output selection", "skull/codegen/llvm/write.c emit_stage_1, skull/codegen/c/write.c"), ("file names", "skull/codegen/abi.c, skull/common/io.c")],
     "property-based testing: random command lines and file system states vs a model", "Directory contents are compared before and after each run.")
prop("C14", "Warnings are given exactly when due",
     "A compile prints exactly the warnings that are due: one for each unused variable, never reassigned `mut` variable and unused function that is not exported and declared outside of function bodies, each explicit type of a variable set to a literal, each condition that is a Bool literal, an empty file and a BOM; with the position of the name or literal. "
     "Warnings never change the generated code or the exit code, `-q` hides them and nothing else, and `--werror` turns any warning, and only a warning, into a failure without output.",
     ["programs", "configurations"], "All valid programs times {no flag, -q, --werror}.",
     "Tests check each warning alone in a minimal program.",
     ["skull/semantic/unused.c", "skull/semantic/assign.c", "skull/semantic/flow.c", "skull/common/errors.c", "skull/real_main.c"],
     [("unused checks", "skull/semantic/unused.c"), ("warning output and werror", "skull/common/errors.c")],
     "property-based testing: generated programs vs model of the warnings", "The model computes the multiset of warnings; compared with stderr under each flag.")
prop("C15", "Compilation is deterministic and independent of history",
     "Compiling the same file with the same options gives byte identical results and messages each time, whatever was compiled before in the same process, whatever stale output, environment or other files are around, and from whichever directory. "
     "A failed compile does not affect the next one.",
     ["histories", "programs"], "All sequences of compiles (valid, invalid, empty files) in one process and directory, and repeated compiles.",
     "Tests compile each file once in a fresh process.",
     ["skull/real_main.c", "skull/pipeline.c", "skull/semantic/shared.c", "skull/common/errors.c", "skull/codegen/llvm/core.c", "skull/codegen/c/core.c"],
     [("state setup and reset", "skull/semantic/shared.c, skull/common/errors.c"), ("per file pipeline", "skull/real_main.c compile_file")],
     "property-based testing: stateful histories of compiles vs fresh process runs", "Each history is compared with independent single compiles.")
prop("C16", "Debug information maps code to its source line",
     "With -g, every call, assignment, `return` and reachable `noop` in the generated LLVM code carries the line and column of the name or keyword in the source that it came from, functions carry the line of their declaration and their type, variables and parameters are described with their name, type, line, enclosing blocks (with line and column) and storage, and the file name and directory are those of the source. The C backend's `#line` directives place each call on the line of its statement. "
     "-g never makes a valid program fail to compile.",
     ["programs"], "All valid programs in all layouts.",
     "One or two fixed programs are compiled with -g in the tests.",
     ["skull/codegen/llvm/debug.c", "skull/codegen/llvm/flow.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c"],
     [("debug locations", "skull/codegen/llvm/debug.c"), ("variable and function records", "skull/codegen/llvm/debug.c")],
     "property-based testing: debug metadata of random programs vs positions known to the printer", "Reads the emitted IR text with a small metadata parser.")

DONE = [p for p in sys.argv[1:]] or [p[0]["id"] for p in P if os.path.exists(os.path.join(V, "checks", p[0]["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, tech, note in P:
    i = p["id"]
    if i in DONE:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
