HOOKS = None
NOTES = "Every check: ./check.sh ID quick|thorough; replay with ./check.sh ID replay FILE; determinism proof with ./check.sh ID soak N."
claim("C01", "exploration", "seeded search over nested constructor expressions with errors and panics injected at every step, checked against a reference evaluator and an object registry",
  "Samples expressions over 13 shapes up to depth 4 (3 million per quick run). Trusts the harness's reference evaluator, its instrumented leaf type and the allocator wrapper.")
claim("C02", "exploration", "seeded search over histories of slot, reconstruct and assign operations with injected errors, panicking constructors and destructors; aborts observed in forked children",
  "Samples histories of up to 24 operations (400,000 per quick run). Trusts the reference model and the object registry.")
claim("C03", "exploration", "seeded search over interleavings of polls, wakes, moves, cancellations, nested operations and panics of futures driven from C++ with simulated executors, each compared with the same history polled directly in Rust",
  "Samples histories of up to 26 operations on 4 tasks (300,000 per quick run). The executor and its wakers (two designs) are simulated; operations interleave on one thread.")
claim("C04", "exploration", "seeded search over histories of callable handles in both languages: moves, self-moves, swaps, calls, consuming and reentrant calls, panics, conversions and crossings, against an ownership model; fatal calls observed in forked children",
  "Samples histories of up to 28 operations on 11 handles (400,000 per quick run). absl::AnyInvocable is a stand-in that follows absl's manager protocol; thunks are hand-written as generated.")
claim("C05", "exploration", "seeded search over histories of bridged values of 60 nested shapes sent, returned, relayed through callbacks, moved and dropped between real Rust and C++ code, with guarded buffers and a registry of owned resources",
  "Samples histories of up to 22 operations on 5 values (2 million per quick run). The C++ string is a stand-in; thunks are hand-written with the generator's macros.")
claim("C19", "exploration", "seeded search over histories of C++ strings and views held from Rust, printed to sinks failing at any write, against a byte-vector model and a registry of string objects",
  "Samples histories of up to 18 operations on 5 strings (1 million per quick run). std::string is a stand-in of libc++'s size that notices bitwise moves.")
claim("C06", "exploration", "seeded search over histories of C++ code that constructs, copies, moves, assigns, swaps, relocates, passes and destroys Rust values of eight types through bindings emitted by the real generator, in storage dirty in several ways, against a model of every handle and a registry of live values",
  "Samples histories of up to 60 operations on 25 handles (400,000 per quick run). The bound crate is fixed, its bindings come from the generator built from the tree.")
claim("C07", "exploration", "seeded search over histories of C++ code that enters Rust through bindings emitted by the real generator, and over the call within them at which Rust panics, each in a process of its own that must end by SIGABRT with no C++ frame unwound or resumed, after exactly the effects of a run without the panic",
  "Samples histories of up to 25 operations and three panics in each (30,000 histories per quick run), over 45 kinds of entry points of two crates. The bindings of core and alloc are stand-ins. Callables and shared_ptr deleters are not entered.")
claim("C08", "exploration", "seeded search over byte sequences, their division into writes, fills and flushes, and sink failures at any call or size, against one-shot decoding",
  "Samples histories of up to ~50 writes (3 million per quick run), through the Rust type and the C++ header. String::from_utf8_lossy is the reference.")
claim("C09", "exploration", "seeded search over dependency graphs, request histories on several databases and panics injected into queries and clones, against direct evaluation",
  "Samples graphs of up to 9 queries and 10 requests (250,000 per quick run). With cycles, answers are compared where they do not depend on where the cycle is entered.")
claim("C10", "exploration", "seeded search over trees of items, reports, error collections, early returns and panics unwinding out of them, against a model of the report",
  "Samples trees of up to ~60 operations (70,000 per quick run). Trusts the model; context on foreign errors is left out.")
claim("C11", "exploration", "seeded search over interleavings of the calling threads with a simulated tool process and over its behaviours: the pipe, process, wait and thread calls under the real code are replaced, and fail, cut short or interrupt at chosen calls",
  "Samples exchanges of texts up to several pipe capacities (300,000 per quick run). The tool, the kernel's pipes and the threads' scheduling are simulated; the std library is real code.")
claim("C12", "exploration", "seeded search over histories of generator runs (the real binary as a process) into the same outputs, with failing, partial, interrupted and killing file operations, unreadable inputs, misbehaving formatters and damaged earlier outputs, each success compared with the complete expected outputs",
  "Samples histories of up to 3 runs over 11 input crates and 7 flag variants (900 histories per quick run). The formatters are stand-ins; expected content comes from a fault-free run checked for the items of the source, and from what the formatter wrote.")
claim("C13", "exploration", "seeded search over made-up crates and flags, each bound several times by the real binary in surroundings simulated from different seeds (random bytes, heap addresses, directory order, clock, process id, processors) with differing environment, directory, times, stale outputs and earlier runs; all bytes of the outcomes are compared",
  "Samples crates of up to 30 items with an optional dependency, 3 to 4 surroundings each (700 crates per quick run). Determinism of rustc's own metadata is taken as given; failed runs are compared by status and messages.")
claim("C14", "exploration", "seeded search over histories of edits, configuration and toolchain switches, deletions and runs of the real cargo subcommand as a process, with every file operation and every cargo invocation failing, cut short or killed at chosen points, each success compared with a model and with a clean build",
  "Samples histories of up to 5 runs on workspaces of up to 6 crates (2,200 per quick run). cargo/rustc and the bindings generator are stand-ins following cargo's rules; no concurrent runs, no power loss.")
claim("C15", "exploration", "seeded search over histories and thread schedules of shared and unique owning pointers, with panicking projections and destructors; every atomic step of the control block is a scheduling point",
  "Samples histories of up to 30 operations on up to 3 simulated threads (150,000 per quick run). Control block transitions of libc++ are re-implemented (its headers are not installed); interleavings are sequentially consistent.")
claim("C16", "exploration", "seeded search over operation histories on the shared vector from both languages, with a panic at any call into user code and failing allocations, against a reference model",
  "Samples histories of up to 30 operations on 3 vectors (600,000 per quick run) in both layouts; the C++ side is libstdc++'s std::vector. Trusts the reference model (Vec<i64>) and the checking allocator.")
claim("C17", "exploration", "seeded search over source files put together from known pieces, the order, hash seed and portions in which the real tools read and write them, failing, interrupted and killing file operations, and the behaviour of stand-in formatters, each result compared with what the pieces say",
  "Samples up to 5 files of up to ~60 pieces and 3 runs each (3,000 cases per quick run). rustfmt and clang-format are stand-ins that pass text on or misbehave; the lexer is the compiler's.")
claim("C18", "exploration", "seeded search over overlapping requests to the real router and handlers, the order in which requests arrive and their tool processes start, read, write and end, tools that fail, die, are missing or leave half an output, missing temporary directories, clients that go away, and hostile file names, each answer compared with what the request alone gives",
  "Samples up to 7 requests, 6 of them under way at once (5,000 cases per quick run). The tools are stand-ins that wait for the schedule; requests are given to the router, without sockets; between two steps of tools one request runs at a time.")
claim("C20", "exploration", "seeded search over histories of interning into shared arenas, with exhausted arenas and panicking hashes and comparisons, each handle compared with all others against equality of the contents",
  "Samples histories of up to 120 operations on interners of eight element types over two arenas (1.5 million per quick run). Types must be 16-aligned at most.")
claim("C21", "exploration", "seeded search over histories of C++ iteration over Rust iterators and collections through bindings emitted by the real generator, with loops left and consumers throwing at any item, against a model of the items and of the calls of next",
  "Samples histories of up to 40 operations on 33 adapters of eleven kinds (3 million per quick run). The bound crate is fixed; what is left after a move is destroyed or assigned to, not used.")
claim("C22", "exploration", "seeded search over made-up C++ headers, given to the real Rust generator as the importer's message, each bound several times with the addresses of declarations, the keys of hash tables, the order of map entries and the requests before it simulated from different seeds; all outputs are compared",
  "Samples headers of up to ~40 declarations (1,500 per quick run, 7 to 9 runs each). clang and the importer are simulated: the message is made up after their rules; protobuf's runtime is a stand-in.")
claim("C23", "exploration", "seeded search over made-up C++ headers with unknown attributes, unsupported types, unsupported kinds and missing declarations injected at chosen declarations, each compared with the same header without the faults, outside of what depends on the faulty ones, and with what the report says",
  "Samples headers of up to ~40 declarations with up to 2 faults (4,000 per quick run). clang and the importer are simulated; dependence is taken generously, by mention and by name.")
claim("C24", "exploration", "seeded search over made-up C++ headers with faults injected at chosen declarations, reading both halves of what the real generator emits back and comparing them with each other and with the layout the importer gave",
  "Samples headers of up to ~40 declarations with up to 3 faults (6,000 per quick run). Neither compiler is run; the layout of the Rust is a model of repr(C).")
claim("C25", "exploration", "seeded search over messages about made-up C++ headers with one fault injected into each: a part missing or too many, text that is not UTF-8, empty or cut, an enumeration or an alternative that is not set or unknown",
 "Samples messages of up to ~15 declarations with one fault each (4,000 headers, 4 to 19 faults each, per quick run). Messages whose text or structure describes other headers need only be read without a panic; IDs and numbers stay right.")
PURE = "a pure function of its input: no schedule, clock, I/O, fault or history takes part, so there is nothing to simulate"
NA = {
 "N01": "what the emitted code means is " + PURE + "; the run-time histories of emitted code are claimed separately (C06, C07)",
 "N02": "the overlap decision is " + PURE,
 "N03": "each conversion is " + PURE,
 "N04": "name resolution happens in macro expansion and type checking: " + PURE,
 "N05": "parsing an argument vector is " + PURE,
 "N06": "the analyses are pure functions of a program, and they cannot be built here (no LLVM/Clang development libraries)",
}
