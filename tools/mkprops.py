import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Program results do not depend on when garbage is collected",
 "For every well-typed program and input, the heap-based engine (the default one) returns exactly the values and output that the language's strict semantics defines, traps exactly when that semantics traps (naming a hole of the program), and agrees with the other engines. This holds whatever the moments at which garbage collections happen, wherever they move objects, and whatever the heap's initial size. Integers wrap at 64 bits, division by zero gives 0 and remainder by zero gives the dividend, out-of-range string indexing gives 0 and out-of-range substrings are clipped.",
 ["schedules","programs","inputs"],"every well-typed program, every input, every placement of collections among its allocations, every starting heap size and growth pattern",
 "run-pass programs allocate a few dozen objects at one fixed heap size, so collections land on the same few instructions every time; no test moves a collection to another allocation.",
 ["ticc-eval/src/bytecode.rs","ticc-eval/src/heap.rs","ticc-eval/src/compile.rs","ticc-eval/src/lambda.rs","ticc-eval/src/treewalk.rs","ticc/src/codegen/gen_core.rs","ticc/src/interpreter.rs"],
 [("root enumeration: operand stack, constants, booleans","ticc-eval/src/bytecode.rs Runtime::gc"),("mark and slide compaction","ticc-eval/src/heap.rs Heap::collect_inner"),("pointer bitmaps","ticc-eval/src/heap.rs ObjAlloc::put_ptr")],
 [("operand stack","roots of the running program","Runtime.stack")],["CompilationUnit::interpret","CompilationUnit::interpret_main"],
 "a decision point where the engine asks whether to collect, the initial heap size, extra growth, and poisoning of vacated memory, all under cfg(tic_sim)")

p("C02","Collection keeps live data intact and bounds the heap by live data",
 "After any sequence of allocations and collections, every object reachable from the program's roots has the same tag, bytes and references as before, and sharing between objects is preserved. Objects that became unreachable are reclaimed: right after a collection the occupied space is exactly the reachable objects. A program whose live data stays bounded runs any number of steps in a heap bounded by a constant multiple of its largest live size plus its largest single allocation, and nothing else that the engine holds grows with the number of steps.",
 ["histories","schedules"],"every history of object and byte allocations, root changes, plain and growing collections, at any heap size",
 "the heap has no direct tests; whole programs exercise one allocation history each and never measure heap size.",
 ["ticc-eval/src/heap.rs","ticc-eval/src/bytecode.rs"],
 [("mark phase in address order","ticc-eval/src/heap.rs Heap::collect_inner"),("forwarding table and slide","ticc-eval/src/heap.rs Heap::collect_inner"),("growth policy","ticc-eval/src/heap.rs Heap::collect_inner, ticc-eval/src/bytecode.rs Runtime::maybe_gc")],
 [("forwarding table","new address per old object slot","Heap.move_dst"),("bump pointer","lowest used address","Heap.bump")],["object graph before and after collection"],
 "public wrapper of the heap under cfg(tic_sim)")

p("C03","An allocation of any size succeeds while memory is available",
 "A program never fails because one value it builds (string, object, closure or constant) is large compared with the heap the engine happens to have at that moment, nor (with the heap-based engine) because its values or pending calls are nested deeply. The engine makes room by collecting or growing and the result is the same as in an engine without a managed heap.",
 ["programs","inputs","schedules"],"every program and input that builds strings, closures and objects of any feasible size, at any heap occupancy and any recent collection history, and every depth of data and of calls that memory allows",
 "existing programs allocate small values after the heap has already grown; none concatenates or captures more than the remaining space.",
 ["ticc-eval/src/bytecode.rs","ticc-eval/src/heap.rs"],
 [("space check before allocation","ticc-eval/src/bytecode.rs (allocating instructions), link"),("collect and grow","ticc-eval/src/heap.rs Heap::collect_and_grow")],
 None,["CompilationUnit::interpret","CompilationUnit::interpret_main"],"same hooks as C01")

p("C04","Editor queries answer the same whatever was asked before",
 "The answer to any query on a compilation unit (diagnostics, tokens, definition, references, type information, completions, and for error-free sources also emitted code and evaluation) depends only on the source text and the modules it imports. It is the same on a fresh unit and after any sequence of earlier queries at any positions, valid source or not, and a query never crashes the caller.",
 ["histories","inputs"],"every source text (complete, mid-edit or damaged) and every sequence of queries and positions issued to one unit",
 "integration tests create a fresh unit per query, so a query that runs after another partial compilation is never exercised.",
 ["ticc/src/lib.rs","ticc/src/api.rs","ticc/src/api/navigation.rs","ticc/src/api/info.rs","ticc/src/api/completion.rs","ticc/src/api/errors.rs","ticc/src/api/tokens.rs","ticc/src/lint/unused.rs"],
 [("lazy item-by-item compilation that resumes where it stopped","ticc/src/lib.rs CompilationUnit::compile_up_to"),("scope and definition set rebuilt on resume","ticc/src/lib.rs CompilationUnit::compile_up_to")],
 [("compiled items","prefix of the source compiled so far","CompilationUnit.items")],["all public methods of CompilationUnit"])

p("C05","Compilation is reproducible across hash seeds and process history",
 "Compiling the same source against the same modules gives the same diagnostics in the same order, the same tokens, the same emitted code text and the same results in every process. Nothing observable depends on hash-table seeds, on how many other units were compiled earlier, or on the order in which they were.",
 ["schedules","histories","programs"],"every source and module set, every assignment of hash seeds to hash tables, and every earlier compilation activity in the process",
 "a test run has one random hash seed per table and compares only error spans or final output, never the emitted code or two runs with each other.",
 ["ticc/src/codegen/gen_core.rs","ticc/src/codegen/opt.rs","ticc/src/codegen/opt/inline.rs","ticc/src/codegen/opt/dce.rs","ticc/src/codegen/opt/merge_match.rs","ticc/src/codegen/opt/saturate.rs","ticc/src/compiler/typeck.rs","ticc/src/lint/unused.rs","ticc/src/api/completion.rs","ticc-core/src/pretty.rs","ticc-eval/src/compile.rs"],
 [("iteration only over ordered collections","ticc/src/codegen, ticc/src/lint"),("sorting of completion names","ticc/src/api/completion.rs")],
 [("symbol counter","process-wide fresh symbols","compiler/ir.rs Symbol::fresh")],["diagnostics, tokens, completions, emit_ir, interpret"])

p("C06","Concurrent compilations do not affect each other",
 "Compilation units used from several threads at once, sharing already completed modules and the built-in library, give the same answers as when each runs alone. Module identity is never confused: a type taken from a shared or built-in module is the same type in every unit, and different definitions are never taken for one. No interleaving deadlocks.",
 ["schedules"],"every interleaving of threads that compile, query and run programs, including the first uses of the built-in library",
 "tests run on several threads but each schedule is whatever the OS picked; first-use races of the built-in library happen at most once per process.",
 ["ticc/src/builtin.rs","ticc/src/lib.rs","ticc/src/compiler/ir.rs","ticc/src/import.rs"],
 [("lazily forced built-in modules behind a lock","ticc/src/builtin.rs LazyModule::force"),("atomic symbol and module key counters","ticc/src/compiler/ir.rs Symbol::fresh, ticc/src/lib.rs ModuleKey::fresh_key")],
 [("built-in module cache","one completed unit per built-in module","builtin.rs LazyModule.module")],["results per thread against the sequential run"],
 "locks and counters go through a seam that yields to the simulator under cfg(tic_sim)")

p("C07","Optimisation passes preserve meaning in every order",
 "For every well-typed program, running the optimiser's passes in any order, any number of times, leaves a valid program that computes the same exported values and the same output for every input. With optimisation on, no program gains a trap it did not have, and one that did not trap gives the same result as with optimisation off.",
 ["schedules","programs","inputs"],"every well-typed program, every sequence of optimisation passes, every input",
 "tests run one fixed pass order over a few dozen programs and look at final output only.",
 ["ticc/src/codegen/opt.rs","ticc/src/codegen/opt/inline.rs","ticc/src/codegen/opt/inline_simple.rs","ticc/src/codegen/opt/dce.rs","ticc/src/codegen/opt/saturate.rs","ticc/src/codegen/opt/move_match.rs","ticc/src/codegen/opt/merge_match.rs","ticc/src/codegen/opt/reduce_apply.rs","ticc/src/codegen/opt/reduce_pi.rs","ticc-core/src/verify.rs"],
 [("pass pipeline with verification between passes","ticc/src/codegen/opt.rs optimize_iteration")],
 None,["CompilationUnit::interpret and emit_ir with optimisation on"],"pass order decided by the simulator under cfg(tic_sim)")

p("C08","Import failures stay confined to the import that failed",
 "When a module lookup fails (missing, unreadable, cyclic) the importing unit reports exactly one error, at that import, saying which of these happened, plus only errors caused by the names that import would have supplied. Every other import and definition compiles as if the failing import were the only broken line, and when the lookup succeeds again a new compilation is clean. A module reached through several import paths is one module: its types agree everywhere.",
 ["fault_sequences","schedules","inputs"],"every import graph and every assignment of lookup outcomes (success, missing, I/O error kinds, cycle) to lookups, in any order and changing over time",
 "five fixed compile-fail programs cover single failing imports; no test makes a lookup fail and later succeed, or fail on one path of a diamond.",
 ["ticc/src/compiler/resolve.rs","ticc/src/import.rs","ticc/src/lib.rs","ticc/src/compiler.rs"],
 [("per-import error reporting","ticc/src/compiler/resolve.rs resolve_import_item"),("exports and type tables of completed units","ticc/src/import.rs")],
 None,["diagnostics per unit"])

p("C09","Published diagnostics always match the current texts",
 "After the language server has handled a message, the last diagnostics it published for every open document are those that compiling the current editor texts and files (as they were when last needed or closed in the editor) from scratch would give, including for documents whose imports, direct or indirect, changed. A closed document's last published diagnostics are empty. Nothing is published for a document that is not open, except the clearing on close.",
 ["histories","fault_sequences"],"every sequence of open, change and close messages over any import graph (diamonds and cycles included), any texts, any order",
 "the server's tests cover a handful of fixed two- or three-file conversations.",
 ["ticc-lsp/src/main.rs","ticc-lsp/src/handlers.rs","ticc-lsp/src/diagnostics.rs"],
 [("per-file versions and dependency staleness","ticc-lsp/src/main.rs Compilation::refresh, is_any_dependency_stale"),("refresh of all open documents on each update","ticc-lsp/src/handlers.rs on_file_update")],
 [("file set","editor text or cached file text with version","FileSet"),("dependencies","modules seen by a compilation and their versions","Compilation.dependencies")],["textDocument/publishDiagnostics"])

p("C10","Editor answers are about the document as it is now",
 "Definition, declaration, references, hover, completion and semantic-token answers always refer to the latest text the client sent for that document and the latest texts of its imports. Positions and ranges are exact in UTF-16 units for any text (multi-byte characters, surrogate pairs, CRLF, no final newline), and out-of-range positions are clamped. Ranges returned for a name cover exactly that name. In a document without errors a completion at a use of a name offers that name. All of these services are announced when the server is initialized.",
 ["histories","inputs"],"every edit history, every text and every request position",
 "position tests use two ASCII lines; no test asks a question after an edit.",
 ["ticc-lsp/src/utils.rs","ticc-lsp/src/handlers.rs","ticc-lsp/src/semantic_tokens.rs","ticc-lsp/src/hover.rs","ticc-lsp/src/completions.rs","ticc-lsp/src/find_references.rs","ticc-lsp/src/go_to_definition.rs","ticc/src/api/navigation.rs","ticc/src/api/info.rs","ticc/src/api/tokens.rs","ticc/src/api/completion.rs","ticc/src/compiler/resolve.rs"],
 [("position translation","ticc-lsp/src/utils.rs LocationTranslator"),("delta-encoded tokens","ticc-lsp/src/semantic_tokens.rs")],
 None,["responses of the language server"])

p("C11","No client behaviour kills the language server",
 "Whatever sequence of JSON-RPC messages a client sends between initialization and shutdown - requests for documents that are not open or were closed, repeated opens and closes, changes with zero or several content entries, unknown methods, wrong or missing parameters, any text (nested no deeper than a few hundred levels) and any positions - the server keeps running and keeps answering later valid messages correctly. A message the server cannot act on has no effect on other documents.",
 ["histories","inputs","fault_sequences"],"every message sequence, well-formed or not, over any documents",
 "tests send only well-formed conversations in the expected order.",
 ["ticc-lsp/src/main.rs","ticc-lsp/src/handlers.rs","ticc-lsp/src/utils.rs","ticc/src/api.rs","ticc/src/compiler/parser.rs"],
 [("handler dispatch","ticc-lsp/src/main.rs Handlers::handle_request, handle_notification"),("lookup of the document of a request","ticc-lsp/src/handlers.rs")],
 None,["server thread alive and correct after each message"])

p("C12","Each request gets exactly one response and the server ends when told",
 "Every request the client sends between initialization and shutdown gets exactly one response carrying its id - a result, or an error for unknown methods and wrong parameters - in the order the requests were sent, and notifications get none. After shutdown and exit, or when the client disconnects at any point, even in the middle of a message, the server terminates by itself after answering the requests it received whole.",
 ["histories","crash_points","fault_sequences"],"every message sequence and every point at which the client shuts down or disconnects",
 "the tests never end a session and never send an unknown request.",
 ["ticc-lsp/src/main.rs","ticc-lsp/src/handlers.rs"],
 [("main loop","ticc-lsp/src/main.rs main_loop"),("request dispatch","ticc-lsp/src/main.rs Handlers::handle_request")],
 None,["message stream of the server, process exit"])

p("C13","The language server survives unreadable files and recovers",
 "When an imported file cannot be read (missing, permission denied, not UTF-8, interrupted, device error) every import of it is reported with the matching error, each import separately, and nothing else about other documents changes. Once the client opens or changes that file, its editor text replaces the failed read everywhere and the errors disappear from every open document that depends on it.",
 ["fault_sequences","histories"],"every assignment of read outcomes to files and every sequence of opens, changes and closes around them",
 "one test covers one missing file once.",
 ["ticc-lsp/src/main.rs"],
 [("file content or error kind cached per file","ticc-lsp/src/main.rs FileSet::get"),("module lookup","ticc-lsp/src/main.rs CompilationModuleResolver::lookup")],
 None,["textDocument/publishDiagnostics"])

p("C14","The command line tool never reports success for incomplete work",
 "If the tool exits with status 0, then everything asked for is complete: the output file or standard output holds exactly the whole result that a fault-free run would produce. If any source, import, input or output cannot be read or written in full (open error, read error, full disk, failed write), the exit status is not 0, and what is said on standard error names the file given to the tool that could not be used.",
 ["fault_sequences"],"every placement of file-system failures among the system calls of a run, in every mode of the tool",
 "no test runs the command line tool.",
 ["ticc/src/main.rs"],
 [("error exits after each I/O call","ticc/src/main.rs main, print_diagnostics, FileModuleResolver")],
 None,["exit status, output file, stdout, stderr"])

p("C15","Benign I/O irregularities are invisible",
 "Short reads, short writes, interrupted system calls and slow producers or consumers never change what the command line tool reads, computes or writes. A run under any such sequence gives byte for byte the same outputs and exit status as an undisturbed run.",
 ["fault_sequences","schedules"],"every pattern of short and interrupted reads and writes, in every mode of the tool",
 "no test runs the command line tool, and the OS almost never splits small reads.",
 ["ticc/src/main.rs"],
 [("whole-file reads and writes","ticc/src/main.rs main, ChildResolver::lookup")],
 None,["exit status, output file, stdout, stderr"])

p("C16","Import graphs on disk get one verdict whatever their shape",
 "For every set of module files, the command line tool ends, and exits 0 exactly when every module in the import closure of the root file is readable, error-free and not part of a cycle, however the import paths are spelled (plain, nested directories, `.` and `..` segments). Diamonds are not cycles, and a file reached by several spellings is one module. When it fails it names at least one offending file on standard error.",
 ["inputs","fault_sequences","configurations"],"every finite import graph and layout of files in directories, every spelling of paths, every subset of broken or unreadable modules",
 "no test runs the command line tool's resolver; the test suite uses its own in-memory one.",
 ["ticc/src/main.rs"],
 [("cycle check along the chain of importers","ticc/src/main.rs ChildResolver::lookup"),("cache of compiled modules by path","ticc/src/main.rs Props.cache"),("first module with errors is reported","ticc/src/main.rs Props.errors")],
 None,["exit status, stderr"])

p("C17","The program test runner never counts a failed run as passed",
 "The repository's program test runner reports a case as ok only if its compile errors or run output are exactly the expected ones stored with it. A file-system failure while loading or running cases is never reported as a pass, and the cases found and their verdicts do not depend on the order in which directories list their entries.",
 ["fault_sequences","schedules"],"every directory enumeration order and every placement of file-system failures among the runner's system calls",
 "the runner is what runs the tests; nothing tests the runner under failing or reordered I/O.",
 ["ticc-tests/src/lib.rs","ticc-tests/src/util.rs","ticc-tests/src/main.rs"],
 [("expected errors and outputs read from markers","ticc-tests/src/lib.rs ModuleSet"),("panic on I/O errors","ticc-tests/src/util.rs")],
 None,["verdict lines of the runner"])

p("C18","Well-typed programs do not go wrong",
 "A program accepted without errors never reaches a state in which an operation is applied to a value of the wrong kind, a match has no case for its value, or code generation cannot represent it.",
 ["programs"],"every source text",
 "a fixed set of programs is compiled.",
 ["ticc/src/compiler/typeck.rs","ticc/src/compiler/kindck.rs","ticc/src/compiler/matchck.rs","ticc-core/src/verify.rs"],
 [("unification","ticc/src/compiler/typeck.rs"),("exhaustiveness","ticc/src/compiler/matchck.rs")])

p("C19","Syntax trees cover the source text exactly",
 "For every input text the parsed items' spans tile the text without gaps or overlaps, and concatenating the leaves of the tree gives back the text byte for byte.",
 ["inputs"],"every input text",
 "parser tests use fixed snippets.",
 ["ticc/src/compiler/parser.rs","ticc/src/compiler/lexer.rs","ticc-syntax/src/lib.rs"],
 [("lossless tree with trivia","ticc-syntax/src/lib.rs")])

p("C20","Formatted output contains exactly the document's tokens",
 "The layout builder prints every token of the document exactly once and in order, separated and indented only as the document's own structure says, whatever the nesting.",
 ["inputs"],"every document tree",
 "two fixed layouts are tested.",
 ["formatter/src/lib.rs","ticc-core/src/pretty.rs"],
 [("token and node builder","formatter/src/lib.rs")])

p("C21","No request read from standard input loses its response",
 "Run over standard input and output, the language server answers every request that it received whole, however the client's bytes are split into reads and its own output into writes, however slow either side is, and wherever the input ends: between messages, in the middle of one, with a read error, or with bytes that are no message. Everything it owes is written completely before the process ends, what it writes is always a sequence of whole framed messages with the same content as in an undisturbed session, and the process ends by itself. If its output fails, it ends having written only a beginning of those messages.",
 ["schedules","fault_sequences","crash_points"],"every split, delay and interruption of the reads and writes of a session, every byte at which its input can end or fail, every byte at which its output can fail",
 "the language server's tests call its handlers through in-memory channels; none starts the process or touches its reader, writer and exit.",
 ["ticc-lsp/src/main.rs"],
 [("reader, writer and main threads joined before exit","ticc-lsp/src/main.rs main"),("server loop and shutdown handshake","ticc-lsp/src/main.rs run, main_loop")],
 None,["standard output and exit of the ticc-lsp process"])

p("C22","A failed or interrupted run of the tool leaves files as they were",
 "A run of the command line tool changes nothing on disk except the output file it was told to write, and that only once the whole result is there. If the run ends before (errors in the sources, unreadable or missing files, a trap in the program, the process killed at any moment), the output file is as it was, absent if it was absent, and all other files always are. If writing the output itself fails or is cut off, the output file holds a beginning of the result and nothing else, and the tool does not report success.",
 ["crash_points","fault_sequences","inputs"],"every program (well-formed, trapping or damaged), every mode of the tool, every earlier content of the output and its neighbours, every moment at which the process can be killed and every system call that can fail",
 "the tool's own tests compare the output of runs that succeed; none looks at what a failed or killed run leaves behind.",
 ["ticc/src/main.rs"],
 [("output opened after the result is complete","ticc/src/main.rs write_output"),("modes that print instead of writing","ticc/src/main.rs main")],
 None,["the file system after the ticc process has ended"])

p("C23","The language server does not grow with the length of the session",
 "The memory that the language server holds depends on the documents that are open and the files it has seen, not on how many messages it has handled. When a client repeats the same edits, questions, opens and closes over and over, what the server holds after each repetition stays the same, however long the session, and whatever is missing, unreadable, cyclic or erroneous among the documents and their imports.",
 ["histories","inputs","fault_sequences"],"every session over every import graph, repeated any number of times, paced or pipelined",
 "the server's tests send a handful of messages and never look at memory; a leak costs nothing in a short run.",
 ["ticc-lsp/src/main.rs","ticc-lsp/src/handlers.rs","ticc/src/lib.rs"],
 [("compiled imports shared between resolvers and their units","ticc-lsp/src/main.rs Compilation, CompilationModuleResolver"),("documents added and removed","ticc-lsp/src/main.rs CompilationSet")],
 [("dependencies","compiled modules of a document","Compilation.dependencies")],["bytes and blocks allocated by the process after each repetition"])

p("C24","Library functions return what their names and types promise",
 "Every function of the standard library returns, for all arguments however large and however often values are shared and passed on, what its name and type promise: numeric functions exact 64-bit results (minima, gcd, bit operations, printing and reading of numerals), string functions any bytes, list functions the whole list in order, sorting a sorted permutation, option and result functions the right case, arrays every index and length up to 2^64-1. Values kept from before an update are unchanged by it, and all of it holds for every collection schedule and heap size and with the optimiser on or off.",
 ["histories","schedules","inputs"],"every argument up to 64 bits and any length, every history of calls whose results are arguments of later calls, every moment at which a collection moves what was kept",
 "the library has few tests, with small arguments, none of which keeps old versions of a value or collects between calls.",
 ["ticc/src/std/int.tic","ticc/src/std/string.tic","ticc/src/std/list.tic","ticc/src/std/array.tic","ticc/src/std/option.tic","ticc/src/std/result.tic","ticc/src/builtin.rs"],
 [("sources of the library's modules","ticc/src/std"),("lookup of built-in modules","ticc/src/builtin.rs lookup_module")],
 [("version","a list or array before an update","values bound to names in the program")],["output of a program that shows every result"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=True)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80
    for f in x["anchors"]["files"]:
        import os; assert os.path.exists("/repo/"+f),f
print(len(P))
