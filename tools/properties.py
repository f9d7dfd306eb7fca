prop("P01", "Incremental answers equal answers computed from scratch",
 "After any history of edits to the documents of a project, of modules being added, replaced and removed, and of questions asked in between, the answers of the running analyser (whole-project and per-module diagnostics, the import graph, definitions, resolutions and inferred types, formatted text) are the ones a freshly started analyser gives for the current documents. What was asked before, in which order, and which states the documents went through make no difference.",
 ["histories", "programs", "inputs"], "every sequence of edits, removals, additions, restarts and queries, over every document content",
 "The tests analyse each text once in a new database (or, for the tracker, a handful of fixed edits); results that depend on what was memoised before an edit cannot show.",
 [S+"db.rs", S+"semantic_index.rs", S+"type_resolution.rs", S+"delta_diagnostics.rs", "crates/compiler/parser/src/lib.rs"],
 [("salsa tracked queries over immutable inputs", S+"db.rs"), ("per-module index and validation queries", S+"db.rs")],
 observe=["diagnostics", "definitions and types of the semantic index", "formatted text"], pkg="ana", bin="sim-analysis",
 note="seeded search; each answer compared with a fresh engine forked before the run; histories of up to a few dozen operations, documents up to 20 kB")
prop("P02", "Change-driven project diagnostics never go stale",
 "The project diagnostics an editor obtains through the long-lived change tracker are, after every change, those of a full recomputation for that project's current documents. This holds whichever projects it was asked about before and in whichever order, and also after modules were removed or added, after a project was loaded anew, and after the whole database was replaced.",
 ["histories", "programs"], "every interleaving of edits, removals, reloads and database replacements over one or several projects sharing one tracker",
 "The tests of the tracker make a few fixed edits in one project of one database.",
 [S+"delta_diagnostics.rs", S+"db.rs"], [("change tracker over per-module diagnostics", S+"delta_diagnostics.rs")],
 observe=["diagnostics published per file"], pkg="ana", bin="sim-analysis",
 note="seeded search over histories of up to 3 projects sharing one tracker; judged against fresh engines")
prop("P03", "Concurrent readers get the answers of one consistent moment",
 "When several threads query the analyser while another thread edits documents, every answer that is given is the correct answer for the documents as they were when the query's snapshot was taken, whatever the interleaving. A query may be cancelled by an edit, but it then gives no answer, leaves nothing behind that changes later answers, can be retried, and all threads finish.",
 ["schedules", "histories", "programs"], "every interleaving of readers and the writer, at the granularity of synchronisation operations and forced preemptions",
 "No test runs two threads against the database.",
 [S+"db.rs", S+"type_resolution.rs", S+"semantic_index.rs"], [("database snapshots and cancellation", S+"db.rs")],
 observe=["query results in reader threads"], pkg="ana", bin="sim-analysis",
 note="seeded schedules over the real threads, locks and condition variables of the engine under a deterministic scheduler; 1-4 readers, one writer")
prop("P04", "The same project always produces byte-for-byte the same output",
 "For the same documents, diagnostics (including their order, messages and related notes), the import graph, definitions, types and formatted text are identical in every run. They do not depend on hash seeds, on the order in which modules were discovered or registered, on the order in which things are asked, or on how parallel queries are scheduled.",
 ["schedules", "configurations", "inputs"], "every hash seed, module registration order, query order and thread schedule",
 "A test compares one run with a stored snapshot; within a process most orders are fixed, and an order that is unstable between runs passes whenever the usual order comes up.",
 [S+"db.rs", S+"validation/", "crates/compiler/diagnostics/src/lib.rs"], [("sorting of modules and diagnostics before they are handed out", S+"db.rs")],
 observe=["rendered diagnostics", "query results"], pkg="ana", bin="sim-analysis",
 note="each run re-asks the same project under other entropy, registration orders, query orders and schedules and compares byte for byte")
prop("P05", "No document history makes the analyser or the formatter crash",
 "Whatever text the documents hold, be it half-typed, truncated, spliced, duplicated, or tangled with cyclic, missing or self-referring declarations and imports, every analysis query and the formatter return an answer and never panic or hang. This also holds after any history of such edits in one session.",
 ["inputs", "histories", "fault_sequences"], "every sequence of damaged and tangled documents (nesting depth bounded by the stack)",
 "The tests feed a fixed list of well-behaved snippets and a few malformed ones, each to a fresh database.",
 [S+"db.rs", S+"type_resolution.rs", S+"validation/", "crates/compiler/parser/src/parser.rs", "crates/compiler/formatter/src/"], [("error recovery in the parser; error types in the analyser", S+"type_resolution.rs")],
 observe=["panics reaching a caller", "queries that do not return"], pkg="ana", bin="sim-analysis",
 note="seeded search over document damage and tangles, in sessions of up to some 30 edits")
prop("P06", "Whole-project and per-module diagnostics agree",
 "At every point of an editing session, the diagnostics the compiler reports for the whole project and those the editor reports module by module are the same, each exactly once. If some module does not parse, the whole-project answer holds the parse errors of all modules, and the per-module answer still holds each module's own errors.",
 ["histories", "programs", "inputs"], "every reachable state of a project, including states with unparsable modules, missing modules and cyclic imports",
 "Tests look at one of the two paths at a time, on single states.",
 [S+"db.rs", S+"delta_diagnostics.rs"], [("two separate paths that run the validators", S+"db.rs")],
 observe=["diagnostics"], pkg="ana", bin="sim-analysis",
 note="seeded search over sessions; the two answers of the real engine are compared with each other")
prop("P07", "Each problem in a project is reported where it is, until it is fixed",
 "A program error is reported with its kind and exact place from the edit that introduces it until the edit that removes it, and nothing is reported for code that is correct. Other functions, other modules, surrounding loops and branches, comments, imports instead of local declarations, and the session's history make no difference to it.",
 ["programs", "histories", "inputs"], "every composition of correct and erroneous program fragments into functions, modules and projects, reached through any edit history",
 "The tests check fragments alone, each in its own file and database; they do not compose them, nest them, or edit one into another.",
 [S+"validation/", S+"type_resolution.rs", S+"semantic_index.rs"], [("validators over the semantic index", S+"validation/")],
 observe=["diagnostic codes and spans"], pkg="ana", bin="sim-analysis",
 note="seeded search over compositions of 550 catalogued fragments (16 diagnostic kinds), of random typed programs with planted errors, and edit histories; the catalogue states what must be reported")
prop("P08", "Formatting on save keeps the program, its comments and its diagnostics",
 "Saving a document through the formatter, at any point of an editing session, yields a document that parses to the same program, holds every comment of the original, and for which the same problems are reported; formatting it again changes nothing. A document that does not parse is left exactly as it is, and several simultaneous requests give the same text.",
 ["inputs", "programs", "histories", "schedules"], "every document, with comments at any place between tokens, in any session state and with concurrent requests",
 "The tests format a dozen small snippets.",
 ["crates/compiler/formatter/src/"], [("syntax-directed printing with attached comments", "crates/compiler/formatter/src/rules/"), ("comment attachment", "crates/compiler/formatter/src/comment_attachment.rs")],
 observe=["formatted text"], pkg="ana", bin="sim-analysis",
 note="seeded search over documents from the catalogue, a corpus and a random syntax generator, with comments at random places")
PR = "crates/compiler/cairo-m-project/src/"
prop("P09", "Loading a project gives exactly its modules, or an error",
 "Loading a project either fails with an error or yields exactly the source files below its source directory, each once, under the module name its path implies, with its complete content as of some moment during the load. The order of directory listings, failing, interrupted or short reads, and files being saved, renamed, added or deleted meanwhile never make a module be silently dropped, misnamed, mixed or cut short; a well-formed project that nothing disturbs does load. (Hidden files do not count; the entry point lies directly in the source directory.)",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every directory tree, every listing order, every sequence of failing or short system calls, every change by other users between two system calls",
 "The tests load small healthy directories with no error and nobody else around.",
 [PR+"model.rs", S+"db.rs"], [("directory walk and module naming", PR+"model.rs"), ("reading the files into a crate", S+"db.rs")],
 observe=["modules of the loaded crate", "reported load errors"], pkg="proj", bin="sim-project",
 note="seeded search over trees, listing orders, system-call faults and concurrent changes, on real files; the tree is the model")
prop("P10", "Every path inside a project leads to that project",
 "From any existing or new path, absolute or relative, however spelled, discovery finds the nearest enclosing manifest and yields the project it describes, or reports an error; it never panics. An unreadable or broken manifest, or a failing system call, is an error and never leads to an outer project or a stand-alone file. An existing file outside any project is a project of its own, whatever its name.",
 ["inputs", "fault_sequences"], "every directory tree with nested, broken and missing manifests, every starting point and spelling, every sequence of failing system calls",
 "The tests discover one project from two absolute paths.",
 [PR+"discovery.rs", PR+"manifest.rs"], [("upward search for the manifest", PR+"discovery.rs")],
 observe=["the discovered project", "reported errors"], pkg="proj", bin="sim-project",
 note="seeded search over trees, starting points, spellings and system-call faults, on real files; a lookup in the generated tree is the model")
prop("P11", "Workspace discovery finds every project, whatever the listing order",
 "Discovering a workspace yields every project below it with a readable, well-formed manifest exactly once, each under an identity of its own, and every name resolves to a project of that name. The outcome is the same for every order in which directories are listed, and a broken or unreadable manifest affects no other project.",
 ["inputs", "schedules", "fault_sequences"], "every directory tree with any mix of good, broken and equally named projects, every listing order, every sequence of failing system calls",
 "No test discovers a workspace; the listing order is the file system's choice.",
 [PR+"discovery.rs"], [("recursive walk for manifests", PR+"discovery.rs")],
 observe=["projects, identities and names of the workspace"], pkg="proj", bin="sim-project",
 note="seeded search over trees and faults, each discovered under two listing orders and compared with the generated tree and with each other")
prop("P12", "Creating a project is complete or reported, and never harms what is there",
 "The command that creates a new project either creates all of it, with manifests that carry its name and sources that load and compile, and reports success, or reports a failure. Nothing that existed before is changed or added to, whatever fails, wherever the process is killed, and whoever creates the same path at the same time; of several commands for one path at most one succeeds.",
 ["crash_points", "schedules", "fault_sequences", "inputs"], "every name, every prior state of the directory, every interleaving of processes at system-call boundaries, every failing, short or torn call and every kill point",
 "There are no tests of it; failures, kills and races need control of each system call.",
 ["crates/cargo-cairo-m/src/main.rs", "crates/cargo-cairo-m/templates/"], [("check, create, write the templates", "crates/cargo-cairo-m/src/main.rs")],
 observe=["the directory afterwards", "exit status"], pkg="initsim", bin="sim-init",
 note="seeded search over interleavings, faults and kill points of one to three real processes whose system calls the simulator grants one at a time")
C = "crates/compiler/"
prop("P13", "Compiled programs do not depend on history, scheduling or hash seeds",
 "Compiling a project in a long-lived session, after any history of edits, broken intermediate states, removed modules, cancelled compilations and concurrent compilations, gives exactly the program, entry points or error that a fresh compiler gives for the same sources at the same optimisation level. It does not depend on hash seeds, registration order of modules or thread schedules, and once the sources are broken no program of an earlier version is handed out.",
 ["histories", "schedules", "configurations", "programs"], "every history of a session, every thread schedule and hash seed, every registration order of modules, all optimisation levels",
 "Tests compile each example once, in a fresh database, in a process whose hash seeds hardly ever matter.",
 [C+"codegen/src/db.rs", C+"mir/src/db.rs", C+"mir/src/lowering/", C+"codegen/src/generator.rs"], [("incremental queries from sources to MIR to code", C+"codegen/src/db.rs"), ("numbering of functions, blocks and labels", C+"mir/src/lowering/function.rs")],
 observe=["instructions, data and entry points of the compiled program", "errors"], pkg="prog", bin="sim-program",
 note="seeded search over histories of random multi-module programs with concurrent, disturbed and cancelled compilations; judged instruction by instruction against a fresh engine in a fresh process under other entropy and registration order")
prop("P14", "Compiled programs compute what their source says",
 "A program that compiles, run with any arguments, returns the values its source prescribes, or fails where its source prescribes failure, at every optimisation level, however execution is cut into segments and whatever was compiled before in the same session. A well-typed program compiles: no panic, no internal error.",
 ["programs", "inputs", "histories", "configurations"], "every well-typed program, every argument, every optimisation level, every cut into segments, every history of the session",
 "The tests run some dozens of small example programs with fixed arguments; wrong code appears for particular combinations of control flow, aggregates, literals and passes.",
 [C+"mir/src/", C+"codegen/src/", "crates/runner/src/", "crates/common/src/"], [("lowering to SSA form", C+"mir/src/lowering/"), ("optimisation passes", C+"mir/src/passes/"), ("code generation and layout", C+"codegen/src/"), ("execution, argument and return value codec", "crates/runner/src/lib.rs")],
 observe=["return values", "failures of the compiler and of the machine"], pkg="prog", bin="sim-program",
 note="seeded search over random programs (loops, calls over modules, structs, tuples, arrays, pointers, heap, plain literals, failing arithmetic, assertions) compiled within random session histories, run whole and in segments, and compared with an independent interpreter of the source language")
prop("P15", "Execution follows the instruction set, however it is cut into segments",
 "Running a program yields, step by step, the register states, memory accesses and final memory that the instruction set prescribes, and a program that does something illegal fails at that instruction. Cutting the run into segments of any size changes nothing but the cuts: each segment holds exactly its share of steps and accesses, starts in the state and with the memory in which the one before it ended, and is written out as what it holds.",
 ["programs", "inputs", "configurations", "histories"], "every program, well behaved or not, every argument and every segment size",
 "The tests execute each instruction alone on a prepared state, and few runs are ever cut.",
 ["crates/runner/src/vm/", "crates/runner/src/memory/", "crates/common/src/"], [("main loop and segments", "crates/runner/src/vm/mod.rs"), ("memory with an access log", "crates/runner/src/memory/mod.rs"), ("instructions", "crates/runner/src/vm/instructions/")],
 observe=["trace, access log, initial memory and serialised form of each segment", "outcome"], pkg="prog", bin="sim-program",
 note="seeded search over raw instruction sequences (also malformed) and compiled programs, each run under several segment sizes and compared with a second machine written from the instruction table")
prop("P16", "A recorded execution becomes a faithful and balanced input of the prover",
 "For every executed program, however the run is cut into segments, the prover input made from a segment holds every executed step and every memory access once and in order, within the range of clock differences the proof allows, and its memory entries, clock updates and Merkle openings cancel out exactly against the memory roots and the public program, input and output cells, which hold the program, the arguments and the results. Consecutive segments agree on memory root and registers, and no step of a compiled program reads one cell twice. A record that is empty, cut short or begins with an invalid instruction is refused, and no damaged one makes the import panic.",
 ["programs", "inputs", "histories", "fault_sequences"], "every program and argument, every cut into segments, every distance between two accesses of a cell, every damage to the record",
 "The tests push a few entries by hand; whether everything cancels out shows only over whole executions, long ones in particular, and the proofs that would tell take minutes each.",
 ["crates/prover/src/adapter/", "crates/runner/src/vm/mod.rs", "crates/runner/src/lib.rs", "crates/common/src/program.rs", C+"codegen/src/passes/"], [("steps, accesses and clock updates", "crates/prover/src/adapter/memory.rs"), ("Merkle trees", "crates/prover/src/adapter/merkle.rs"), ("segments and their initial memory", "crates/runner/src/vm/mod.rs"), ("public cells", "crates/runner/src/lib.rs")],
 observe=["prover input of each segment", "public address ranges", "failures of the import"], pkg="proof", bin="sim-proof",
 note="seeded search over raw and compiled programs and cuts, with the real adapter built twice (clock differences of 3 and of 20 bits), judged by summing up the memory and Merkle arguments entry by entry and by roots computed from a model of the memory; damaged records as faults")

prop("P17", "Saved execution traces are complete and exact, or the failure is reported",
 "Saving the recorded states or memory accesses of a run writes, for every segment, exactly one file of exactly the recorded entries in order, beside the given path and named after it and the segment, whatever was there before, and touches no other file. When a file operation fails the save reports it and leaves nothing but beginnings of the right contents; short and interrupted operations change nothing. Reading such a file back gives the recorded entries, and never one that is not in it.",
 ["programs", "inputs", "histories", "fault_sequences"], "every executed program, cut into segments, path, earlier content, and sequence of failing, short and interrupted file operations",
 "The tests write one trace to one plain path on a disk that never fails.",
 ["crates/runner/src/vm/mod.rs", "crates/common/src/execution.rs", "crates/prover/src/adapter/io.rs"], [("trace files", "crates/runner/src/vm/mod.rs"), ("their readers", "crates/prover/src/adapter/io.rs")],
 observe=["files after every save", "result of the save", "entries read back"], pkg="tools", bin="sim-tools",
 note="seeded search over executions, paths and faults of the file operations of the real code, compared byte by byte with the recorded execution")
prop("P18", "The compile and run programs succeed only with complete, correct results",
 "The compile program ends with success only if the program it wrote or printed is complete and the one its source means, at either optimisation level; the run program only if it was given a complete program and says what that program returns for the arguments as written. Every other end, be it wrong source, wrong arguments, a damaged program file, or failing file operations at any point, is a failure with a message, not a crash. Without such a cause they do succeed, and they change no file but the output.",
 ["programs", "inputs", "fault_sequences", "crash_points"], "every project and argument list, every optimisation level and output destination, every sequence of failing, short, torn and interrupted system calls, every crash point of the compile program",
 "No test runs the programs as processes, let alone on a disk that fails half-way.",
 ["crates/compiler/src/main.rs", "crates/compiler/src/lib.rs", "crates/runner/src/main.rs", "crates/runner/src/lib.rs", "crates/common/src/abi_codec.rs", "crates/common/src/program.rs", "crates/compiler/cairo-m-project/src/"],
 [("compile program", "crates/compiler/src/main.rs"), ("run program", "crates/runner/src/main.rs"), ("arguments as text", "crates/common/src/abi_codec.rs")],
 observe=["exit codes, both output streams", "files before and after"], pkg="tools", bin="sim-tools",
 note="seeded search over projects, arguments and faults at the system calls of the two real programs run as processes, judged against the same compilation and run inside the simulator")

L = "crates/cairo-m-ls/src/"
prop("P22", "The editor shows exactly the problems of the current documents",
 "Whatever the user opens, edits, saves, closes and creates, in whatever rhythm, and however slow the disk or the editor is, once there is a pause the problems shown for each file of an opened project are exactly those a fresh analysis of the documents as they are now finds, at the right places. No message stays unprocessed, no request unanswered, and the server neither stalls nor crashes. This includes manifests that are broken and repaired while they are edited, and the server's own renewal of its database.",
 ["histories", "schedules", "fault_sequences"], "every session of an editor with any projects, every thread schedule and message timing, every configuration of delays, failing file reads while the session lasts",
 "No test holds more than one message at a time, lets the database be replaced, or changes a manifest; schedules and delays are out of a test's control.",
 [L + "backend.rs", L + "diagnostics/", L + "project/", L + "db/"],
 [("debounced and project-wide diagnostics", L + "diagnostics/controller.rs"), ("loading of projects", L + "project/controller.rs"), ("replacement of the database", L + "db/swapper.rs")],
 observe=["published diagnostics", "answers and log messages"], pkg="ls", bin="sim-editor",
 note="seeded search over sessions, message timing, thread schedules and read faults of the real server on the real runtime; a fresh analysis engine on the documents is the reference")
prop("P23", "The editor's questions are answered from the current documents",
 "Hover, go to definition, completion and formatting answer every request, about the document as it was when the request was sent or later: hovering and definitions concern the name at the asked place, completions have no duplicates, and applying a formatting answer gives the formatter's text for the document. When nothing changes any more the answers are those of a server just started on the same documents, whatever the session was before and whatever is asked at the same time.",
 ["histories", "schedules", "fault_sequences"], "every session and question, every timing and thread schedule",
 "The tests ask one question after one document was opened, on ASCII text.",
 [L + "backend.rs", L + "project/", L + "db/"],
 [("requests", L + "backend.rs"), ("documents of a loaded project", L + "project/model.rs")],
 observe=["answers to requests"], pkg="ls", bin="sim-editor",
 note="seeded search over sessions, questions and schedules of the real server; the formatter, the text at the asked place and a freshly started server are the references")

prop("P19", "A proof is accepted only for an execution that took place",
 "Every execution the runner completes can be proved, and the verifier accepts a proof only if the public program, on the public inputs, yields the public outputs.",
 ["programs", "inputs"], "every program, input and forged proof", "Tests prove a handful of programs and forge nothing.",
 ["crates/prover/src/components/", "crates/prover/src/prover.rs", "crates/prover/src/verifier.rs"], [("constraints", "crates/prover/src/components/")],
 na="proving and verifying are pure functions of one input: no schedule, clock, input/output or second party for a simulator to control, so the family has nothing to search; and the proof system (stwo, an empty submodule here) cannot be built offline. What has a history, the record that is proved, is P15 and P16")
prop("P20", "Instructions and values survive encoding and decoding",
 "Every instruction and every value of the binary interface decodes to what was encoded, and a malformed encoding is refused.",
 ["inputs"], "every instruction, operand, type and value", "Tests sample operands.",
 ["crates/common/src/instruction.rs", "crates/common/src/abi_codec.rs"], [("instruction table", "crates/common/src/instruction.rs"), ("values", "crates/common/src/abi_codec.rs")],
 na="the codecs are pure functions of their input, without schedule, fault or history; P14, P15 and P18 exercise them on the way (compiled and raw instructions executed against a second machine, values passed in and out)")
prop("P21", "WebAssembly modules translate to programs of the same meaning",
 "A WebAssembly module within the supported subset translates to a program that computes what the module computes; one outside it is refused.",
 ["programs", "inputs"], "every module and argument", "Tests translate fixed modules.",
 ["crates/wasm/src/"], [("translation", "crates/wasm/src/lowering/")],
 na="a pure translation without schedule, fault or history, and its parser (womir) is not available offline, so no part of it can be executed here")
