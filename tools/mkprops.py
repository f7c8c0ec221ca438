"""Writes properties.jsonl and MANIFEST.json (the texts live here so that the two stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NC = "Tests compile a few dozen fixed sample programs, each run once with the default switches."
P = []


def p(id, title, statement, over, text, why, files, mech, observe, tech, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}, _t=tech, _n=note, _l=level))


AST, TC, CE, TCG = "src/middle_end/ast_to_ir.rs", "src/middle_end/type_conversions.rs", "src/middle_end/compile_time_eval.rs", "src/back_end/target_code_generation.rs"
OUT = ["standard output and exit status of the compiled program, run in the repository's runtime"]

p("C01", "Integer expressions compute what C says",
  "A compiled program that applies the unary, binary, shift, comparison, logical, conditional and compound-assignment operators to signed and unsigned char, short, int and long values and integer constants prints the same results as the same program compiled natively, as long as it has no undefined behaviour. This includes the integer promotions, the types of constants, wrap-around of unsigned arithmetic and constant expressions folded by the compiler.",
  ["inputs", "programs"], "every expression tree over all integer types and operand values, in constant, variable and mixed form, under every optimisation configuration",
  NC + " They use a handful of small positive operands; type pairs, promotion rules, boundary values and operator nestings multiply far beyond that.",
  [AST, TC, CE, "src/middle_end/instructions.rs", TCG], [("usual arithmetic conversions and promotions", TC), ("constant folding", CE), ("one instruction per operator and type", TCG)], OUT,
  "differential run-time monitoring against sanitizer-checked native executions of random expressions", "random typed expression programs; operands include boundary values")
p("C02", "Conversions between arithmetic types keep C's value",
  "Whenever a value of one arithmetic type is converted to another (by cast, assignment, initialisation, argument passing, return, compound assignment, conditional or comparison), the resulting value is the one C prescribes, for every pair of types and every value whose conversion is defined.",
  ["inputs", "programs"], "all ordered pairs of char, short, int, long, their unsigned forms, float and double, in every converting context, for boundary and random values",
  NC + " Most type pairs and contexts never occur in them, and where they do the values fit in both types.",
  [TC, AST, TCG], [("conversion instructions chosen per type pair", TC), ("lowering to sign/zero extension and truncation", TCG)], OUT,
  "differential run-time monitoring against sanitizer-checked native executions", "every type pair and context by random choice, boundary-heavy values")
p("C03", "Floating point expressions compute IEEE results",
  "Arithmetic, comparison, negation, conditions and mixed-type expressions on float and double values, including constants, produce bit-for-bit the results of IEEE 754 single and double arithmetic as the native compiler computes them without excess precision or contraction.",
  ["inputs", "programs"], "every expression over float, double and mixed operands, including subnormals, signed zero, infinities, NaN and values near rounding boundaries",
  NC + " They print a few short decimals.",
  [AST, TC, "src/back_end/float_encoding.rs", TCG, CE], [("constant encoding", "src/back_end/float_encoding.rs"), ("promotion of float operands", TC)], OUT,
  "differential run-time monitoring; results are observed through their object bytes", "random expressions, values observed bytewise")
p("C04", "Control flow follows the source program",
  "A compiled program executes the statements of its source in the order C prescribes, for every nesting of if, while, do, for, switch with fall-through and labels inside nested statements, break, continue, return and goto, with conditions evaluated exactly once and short-circuit operators and conditional expressions evaluating only the operands they should.",
  ["programs", "inputs"], "all statement nests including irreducible jumps, unreachable code, empty bodies and side-effecting conditions, on all paths",
  NC + " The structured-control-flow reconstruction depends on the shape of the whole flow graph; the tests sample some twenty shapes.",
  [AST, "src/relooper/soupify.rs", "src/relooper/relooper.rs", "src/relooper/blocks.rs", TCG], [("basic block construction", "src/relooper/soupify.rs"), ("structuring into loops and multiples with a dispatch label", "src/relooper/relooper.rs"), ("branch depth computation", TCG)], OUT + ["instrumented step counter (termination)"],
  "differential run-time monitoring of execution traces (each statement prints an event) against native executions", "random statement nests with trace output and loop fuel")
p("C05", "Objects and pointers behave like C memory",
  "Scalars, arrays of any dimension (including those sized at run time), structures and unions in any nesting, and pointers to any of them hold the values last stored through any access path, do not overlap one another, and pointer arithmetic, indexing, member access, comparison and difference address the elements C says they do.",
  ["programs", "histories"], "all type shapes, access paths and histories of loads and stores through aliases",
  NC + " Overlaps and wrong offsets only show for particular layouts and store orders.",
  [AST, "src/middle_end/ir_types.rs", "src/middle_end/aggregate_type_initialisers.rs", "src/back_end/memory_operations.rs", "src/back_end/stack_allocation/optimised_allocation.rs"], [("object sizes and member offsets", "src/middle_end/ir_types.rs"), ("loads and stores by type width", "src/back_end/memory_operations.rs")], OUT + ["every load and store of the instrumented module"],
  "differential run-time monitoring plus instrumentation of every load and store (bounds, poisoned memory)", "random memory workouts with checksums over all objects")
p("C06", "Calls pass values and keep every caller's state",
  "Every call, direct, nested, recursive or mutually recursive, with any number and types of parameters, delivers each argument to its parameter, returns the declared result type, evaluates each argument once, and leaves every local object of every active caller unchanged.",
  ["programs", "histories"], "all signatures, argument expressions, call nestings and recursion patterns",
  NC + " Few of them have more than two parameters or live values across calls.",
  ["src/back_end/stack_frame_operations.rs", TCG, AST, "src/back_end/target_code_generation_context.rs"], [("frame set-up and tear-down", "src/back_end/stack_frame_operations.rs")], OUT + ["frame and stack pointer words at each call and return"],
  "differential run-time monitoring with frame monitors and stack poisoning", "random call graphs and signatures")
p("C07", "Static objects and string literals are initialised",
  "Before the first statement of main runs, every object at file scope holds its initialiser's value, or zero when it has none; string literals and arrays initialised from them hold exactly the bytes the source spells, with their terminator; and they keep their values until the program changes them, whichever function does so.",
  ["programs", "inputs"], "all initialiser shapes and types, all byte values in literals, any number and order of globals, functions and arguments",
  NC + " They use two or three globals and ASCII strings.",
  ["src/back_end/initialise_memory.rs", "src/back_end/wasm_module/data_section.rs", "src/front_end/interpret_string.rs", AST, "src/middle_end/aggregate_type_initialisers.rs"], [("layout of literals and globals", "src/back_end/initialise_memory.rs"), ("escape sequences", "src/front_end/interpret_string.rs")], OUT + ["stores into string storage", "data segments of the module"],
  "differential run-time monitoring with write monitors over literal storage", "random static layouts and literals")
p("C08", "Optimisation switches never change behaviour",
  "For every valid program and input, all combinations of the optimisation switches, and repeated compilations with the same switches, produce modules with the same output, exit status and termination.",
  ["configurations", "programs", "schedules"], "all 8 combinations of the three switches and every internal iteration order the compiler may take, for all programs",
  "The tests run one combination; compiler output varies from process to process (hash seeds), which a single run cannot cover.",
  ["src/lib.rs", "src/middle_end/middle_end_optimiser/ir_optimiser.rs", "src/middle_end/middle_end_optimiser/remove_redundancy.rs", "src/middle_end/middle_end_optimiser/tail_call_optimise.rs", "src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs", "src/back_end/dataflow_analysis/live_variable_analysis.rs", "src/back_end/dataflow_analysis/dead_code_analysis.rs", "src/back_end/stack_allocation/optimised_allocation.rs"],
  [("liveness-based slot sharing", "src/back_end/stack_allocation/optimised_allocation.rs"), ("dead store removal", "src/back_end/dataflow_analysis/dead_code_analysis.rs"), ("tail call rewriting", "src/middle_end/middle_end_optimiser/tail_call_optimise.rs")], OUT,
  "metamorphic run-time monitoring: all configurations and repeated compilations of one program must agree with each other and the reference", "8 configurations plus 4 repeats per program")
p("C09", "Tail calls keep meaning and run in constant stack",
  "With tail-call optimisation on, a self tail call returning a value behaves exactly as an ordinary call (arguments evaluated before any parameter changes, fresh locals, no effect on escaped addresses) and any recursion depth uses the same amount of linear stack; with it off, behaviour is the same and only stack use differs.",
  ["programs", "inputs", "configurations"], "all positions of tail calls, parameter permutations, types, frame sizes and recursion depths",
  "The tests contain two tail-recursive samples and never look at stack use.",
  ["src/middle_end/middle_end_optimiser/tail_call_optimise.rs", "src/middle_end/instructions.rs", TCG, "src/back_end/stack_frame_operations.rs"], [("recognition of tail calls", "src/middle_end/middle_end_optimiser/tail_call_optimise.rs"), ("parameter overwrite and jump to the function start", TCG)], OUT + ["stack pointer word sampled at every access"],
  "differential run-time monitoring plus a stack high-water monitor compared at two recursion depths", "value-returning tail calls in six statement shapes")
p("C10", "The linear stack is balanced and frames are isolated",
  "At every return the frame pointer and stack pointer are what they were before the call, no function reads stack memory it has not written or writes below its own frame except through addresses it was given, the reserved pointer words are only used as such, and repeating a call does not grow the stack.",
  ["programs", "histories"], "all call histories of all valid programs, in every configuration",
  "A leaked or corrupted frame is invisible until the stack overflows or a clobbered value is used; the tests only compare final output.",
  ["src/back_end/stack_frame_operations.rs", TCG, "src/back_end/stack_allocation/optimised_allocation.rs", "src/back_end/stack_allocation/naive_allocation.rs"], [("frame push, pop and result read-back", "src/back_end/stack_frame_operations.rs")], ["frame, temporary frame and stack pointer words, all loads and stores, calls and returns of the instrumented module"],
  "binary instrumentation of the emitted module: per-call frame monitors, stack poisoning, high-water comparison of 2 and 12 rounds", "monitors run on every call")
p("C11", "Every accepted program yields a module the runtime can load",
  "For every program the compiler accepts, in every configuration, the output validates as WebAssembly, imports only what the runtime provides (one page of memory and the library functions it needs), exports main taking two 32-bit integers and returning one, places its initial data inside the memory without overlap, and starts with a stack pointer behind all of it.",
  ["programs", "configurations"], "all accepted programs and switch combinations, with profiling on and off",
  NC + " Encoding, section and layout errors depend on sizes and combinations no sample has.",
  ["src/back_end/wasm_module/module.rs", "src/back_end/wasm_module/imports_section.rs", "src/back_end/wasm_module/exports_section.rs", "src/back_end/wasm_module/types_section.rs", "src/back_end/wasm_module/data_section.rs", "src/back_end/wasm_module/code_section.rs", "src/back_end/initialise_memory.rs"], [("section assembly", "src/back_end/wasm_module/module.rs")], ["the module's bytes, decoded independently, and its instantiation by the runtime"],
  "independent decoder and validator over every emitted module, followed by instantiation under monitors", "decoder is lib/wasmmon.mjs, validator is the engine's")
p("C12", "printf writes what C says",
  "For every supported conversion, length modifier and literal text, printf writes exactly the bytes the C library would, in order, takes its arguments from the right places whatever their number and types, and returns the number of bytes written.",
  ["inputs", "programs"], "all format strings over the supported conversions, all argument values and counts",
  "The tests print small integers, short strings and a few decimals.",
  ["runtime/stdlib", "runtime/number_operations.mjs", "runtime/memory_operations.mjs", AST, TCG], [("format interpreter", "runtime/stdlib/stdio.mjs"), ("variadic argument layout", TCG)], OUT,
  "differential run-time monitoring of random format strings and values", "supported conversions only: d i u s c f, h, l, %%")
p("C13", "Library functions match their C specifications",
  "strlen, strstr, strtol and strtoul (including the end pointer, bases 0 and 2 to 36, prefixes, signs, overflow clamping), and the character functions return what the C standard library returns, for every argument for which that is defined.",
  ["inputs"], "all strings, bases and character values",
  "The tests call each function on a few ordinary strings.",
  ["runtime/stdlib", "headers/ctype.h", "headers/stdlib.h", "headers/string.h"], [("string and number scanning", "runtime/stdlib"), ("character classes written in C", "headers/ctype.h")], OUT,
  "differential run-time monitoring of random calls", "results of every call printed")
p("C14", "Running a module delivers arguments, output and exit status",
  "Running a compiled program through the command-line runtime gives main its argument count, the module path and every argument's exact bytes followed by a null pointer, writes exactly the program's output to standard output, and exits with main's return value as the status.",
  ["inputs", "programs"], "all argument lists, signatures of main, output sizes and return values",
  "The tests pass at most a couple of short arguments and check return codes of a few values.",
  ["runtime/run.mjs", "runtime/init_memory.mjs", "runtime/memory_constants.mjs", "src/back_end/initialise_memory.rs", "src/back_end/wasm_module/exports_section.rs"], [("argument vector written behind the static data", "runtime/init_memory.mjs"), ("process exit", "runtime/run.mjs")], ["argv as seen by the program, bytes on standard output, exit status of the process"],
  "black-box runs of the real command-line runtime compared with native runs of the same program and arguments", "scratch copy of the runtime directory")
p("C15", "Any input ends in a valid module or a clean refusal",
  "For every input file, however malformed, and every switch combination the compiler terminates; if it exits with status 0 the output is a valid module exporting main, and otherwise it reports a diagnostic and leaves no output file behind. An output path that cannot be written is reported as an error too.",
  ["inputs", "configurations"], "all byte sequences as input files, all switch combinations",
  "Tests only feed it well-formed programs.",
  ["src/main.rs", "src/lib.rs", "src/preprocessor.rs", "src/front_end/lexer.rs", "src/front_end/parser.rs", AST, "src/back_end/wasm_module/module.rs"], [("errors stop the pipeline before anything is written", "src/lib.rs")], ["exit status, diagnostics, CPU time and output file of the compiler process"],
  "fuzzing under CPU, memory and file-system monitors with module validation", "mutations, splices, token soup, raw bytes, deep nesting; 60 s CPU limit per input")
p("C16", "Invalid programs are refused, their valid twins accepted",
  "A program that uses an undeclared or out-of-scope name, mistypes an operand, redeclares an identifier, modifies a non-lvalue, calls a function with the wrong number of arguments, misplaces break, continue, case or default, jumps to a missing label, uses an incomplete type or is syntactically wrong is refused with a diagnostic and no output, wherever in the program the fault lies; the same program without the fault is accepted.",
  ["programs"], "the listed kinds of fault at every position of every valid program, reachable or not, in every configuration",
  "The tests contain almost no invalid program.",
  [AST, "src/middle_end/context.rs", "src/middle_end/ir.rs", TC, "src/middle_end/get_ast_type_info.rs", "src/front_end/lexer.rs", "src/front_end/c_parser.lalrpop"], [("scope stacks", "src/middle_end/context.rs"), ("type rules", TC)], ["exit status, diagnostics and output file of the compiler process"],
  "twin-pair monitoring: fault catalogue injected into random valid programs, clang as the judge of both twins", "about 160 kinds of fault")
p("C17", "Stack profiling is complete and changes nothing else",
  "With stack profiling on, every change of the stack pointer is reported to the runtime before the program does anything else, the largest reported value is the true peak, the log file the runtime writes holds exactly the reported history, and the program's behaviour is that of the unprofiled build; with profiling off nothing is reported and no log is written.",
  ["programs", "configurations", "histories"], "all programs and optimisation combinations",
  "No test enables profiling.",
  ["src/back_end/profiler.rs", "src/back_end/stack_frame_operations.rs", TCG, "runtime/profiler.mjs", "runtime/run.mjs"], [("logging call after each stack pointer write", "src/back_end/profiler.rs"), ("log file", "runtime/profiler.mjs")], ["stack pointer word, logging calls, log file"],
  "online trace checker over instrumented executions plus log-file comparison", "every stack pointer change must be logged before the next event")
p("C18", "Size never breaks a program",
  "Programs remain correct when counts and sizes cross encoding and layout boundaries: many functions, parameters, locals, globals, literals, cases, nested blocks, long bodies and strings, large frames and large constants.",
  ["programs"], "every count and size up to the memory page, in particular around 63/64, 127/128, 8191/8192 and 32767/32768",
  "The test programs are all small; variable-length encodings and offsets of more than one byte are hardly reached.",
  ["src/back_end/integer_encoding.rs", "src/back_end/wasm_module/code_section.rs", "src/back_end/wasm_module/data_section.rs", "src/back_end/wasm_instructions.rs", "src/back_end/initialise_memory.rs", "src/relooper/relooper.rs"], [("LEB128 encoding", "src/back_end/integer_encoding.rs"), ("instruction encoding", "src/back_end/wasm_instructions.rs")], OUT + ["decoded module"],
  "differential run-time monitoring of scaled programs with an independent decoder", "sizes chosen around the encoding boundaries")
p("C19", "Tokens, operators and macros mean what C says",
  "Source text is split into tokens, and expressions grouped by precedence and associativity, as C prescribes: operators without spaces, comments anywhere, constants in all spellings, character escapes, line continuations, and macros with and without parameters, conditional compilation and includes.",
  ["inputs", "programs"], "all token sequences, spacings, nestings of operators and macro definitions",
  "The tests are written in one tidy style.",
  ["src/front_end/lexer.rs", "src/front_end/c_parser.lalrpop", "src/front_end/interpret_string.rs", "src/preprocessor.rs"], [("token definitions", "src/front_end/lexer.rs"), ("grammar", "src/front_end/c_parser.lalrpop")], OUT,
  "differential run-time monitoring of programs with adversarial spelling", "random operator chains without parentheses, spacing and comments")
p("C20", "Names denote the declarations C's scope rules pick",
  "Every use of a name denotes the innermost visible declaration in its name space (variables, typedef names, tags, members, labels, enumeration constants, functions), a declaration hides outer ones only until its block ends, and declarators of any nesting declare the type C assigns them.",
  ["programs"], "all nestings of scopes, shadowings across name spaces and declarator shapes",
  NC + " Shadowing appears in one of them.",
  ["src/middle_end/context.rs", "src/middle_end/get_ast_type_info.rs", AST, "src/front_end/lexer.rs", "src/front_end/c_parser.lalrpop"], [("scope stack", "src/middle_end/context.rs"), ("declarator to type", "src/middle_end/get_ast_type_info.rs")], OUT,
  "differential run-time monitoring of programs with systematic shadowing", "each name's value identifies its declaration")
p("C21", "Unreachable procedures are removed, exactly those",
  "With unreachable-procedure elimination on, the module contains exactly the functions and library imports that main can reach through calls; with it off, it contains all defined functions; behaviour is the same either way.",
  ["programs", "configurations"], "all call graphs (cycles, self recursion, disconnected parts, calls in any expression position) and definition orders",
  "The tests never inspect the module's function inventory.",
  ["src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs", "src/back_end/wasm_module/imports_section.rs", "src/lib.rs"], [("call graph traversal", "src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs")], ["function and import inventory of the decoded module"],
  "conservation check of the decoded module's inventory against the call graph known by construction", "random graphs")
p("C22", "Stack allocation optimisation saves memory, safely",
  "With stack allocation optimisation on, no execution uses more linear stack than with it off, values whose lifetimes do not overlap share storage so that stack use does not grow with the number of finished blocks, and behaviour is unchanged.",
  ["programs", "configurations", "histories"], "all functions, lifetimes and executions",
  "The tests neither measure stack use nor compare the two allocations.",
  ["src/back_end/stack_allocation/optimised_allocation.rs", "src/back_end/stack_allocation/naive_allocation.rs", "src/back_end/stack_allocation/clash_interval_var_locations.rs", "src/back_end/dataflow_analysis/clash_graph.rs", "src/back_end/dataflow_analysis/live_variable_analysis.rs", "src/back_end/dataflow_analysis/flowgraph.rs", "src/back_end/dataflow_analysis/instruction_def_ref.rs"], [("clash graph colouring into intervals", "src/back_end/stack_allocation/optimised_allocation.rs")], ["stack pointer word sampled at every access, poisoned stack, program output"],
  "paired runs under a stack high-water monitor and poisoning", "same program with and without the optimisation")
p("C23", "The command line does what it documents",
  "The compiler writes exactly one file, at the requested or default path, replacing what was there, and only when it succeeds; each documented switch turns its feature on or off independently of the others' order, defaults apply otherwise, contradictory or unknown options and unusable paths are refused with a non-zero status and a diagnostic.",
  ["configurations", "inputs", "fault_sequences"], "all option combinations, orders and spellings, paths, and missing or unwritable files",
  "The tests always use one command line.",
  ["src/main.rs", "src/lib.rs", "src/program_config", "src/preprocessor.rs"], [("argument parser", "src/program_config"), ("file output", "src/lib.rs")], ["exit status, diagnostics, directory contents before and after, properties of the module"],
  "black-box monitoring of the process and its directory against a model of the command line", "random command lines in a scratch directory")

p("C24", "Standard headers combine freely and define C's values",
  "A program may include any subset of the provided standard headers, in any order, spelling and number, and gets the constants, limits, types and function declarations C gives them, each with C's value, width and signedness, while the names of headers it does not include stay free.",
  ["programs", "configurations"], "all subsets, orders, repetitions and spellings of the includes, all constants and exact-width types at their limits",
  "The tests include one or two headers in fixed order and never look at their constants or types.",
  ["headers/limits.h", "headers/stdint.h", "headers/stddef.h", "headers/stdbool.h", "headers/stdlib.h", "headers/string.h", "headers/ctype.h", "headers/stdio.h", "src/preprocessor.rs"], [("collection of include directives", "src/preprocessor.rs"), ("include guards", "headers")], OUT,
  "differential run-time monitoring against the system's C library headers", "random include lists; values observed at the limits of each type")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for x in P:
        m["checks"].append({"property": x["id"], "quick_cmd": f"VERIF_TIER=quick python3 checks/{x['id']}.py", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{x['id']}.py",
                            "technique": x["_t"], "level": x["_l"], "level_note": x["_n"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
