#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "In-place construction destroys everything exactly once when any step fails",
  "For any in-place construction expression built from the Ctor combinators, the ctor!/raw_ctor! macros and the emplacing containers, and for any constructor, initialiser, continuation or error mapper in it that returns an error or panics, every object whose construction completed is destroyed exactly once, at the address it was constructed at, and nothing that was never constructed is destroyed or exposed. "
  "The error or panic reaches the caller unchanged, no alternative runs unless its predecessor really failed, and no memory is leaked. "
  "If nothing fails, the resulting object is the one the expression denotes, pinned at its final address until it is destroyed once.",
  ["programs","fault_sequences"],
  "every nesting of constructors (struct, tuple, generic and union initialisers, combinators, Box/Rc/Arc/stack emplacement) and every assignment of {succeed, return Err, panic} to the steps that may fail, including panicking destructors",
  "The unit tests run a few fixed expressions with one failing position each; failure positions inside nested expressions and after partial initialisation are not enumerated, and leaks or double drops are only noticed where a test counts drops by hand.",
  ["support/ctor.rs","support/ctor_proc_macros.rs"],
  [("field drop guards while a struct is being initialised","support/ctor.rs unsafe_ctor_impl!/init_field"),("ownership of the destination until construction succeeded","support/ctor.rs CtorThen/CtorOrElse/Emplace"),("generated Drop forwarding to PinnedDrop","support/ctor_proc_macros.rs recursively_pinned")],
  [("destination","raw memory that becomes an object only when its constructor returned Ok","support/ctor.rs Ctor::ctor")],
  ["construction and destruction events (id, address) of instrumented values","result of emplace!/try_emplace!/Emplace::try_emplace"])

prop("C02", "Pinned slots and in-place replacement never double-drop or expose dead values",
  "Over any history of creating, filling, replacing, clearing, reading and dropping pinned slots and of in-place reconstruction and assignment of pinned values, each stored value is destroyed exactly once, before its storage is reused and without having been moved. "
  "When a replacement constructor fails or panics, or a destructor panics, the slot reports itself empty and stays usable, and no destroyed or uninitialised value is ever handed out or destroyed again; an in-place reconstruction that cannot restore the value terminates the process instead of continuing. "
  "Reads always return the most recently successfully stored value.",
  ["histories","fault_sequences"],
  "every sequence of slot and assignment operations with failures (Err, panic in constructor, panic in destructor) injected at any step",
  "Existing tests exercise single replace/clear calls on the success path; a destructor or constructor that unwinds in the middle of a longer history is never tried.",
  ["support/ctor.rs"],
  [("initialised flag guarding the storage","support/ctor.rs Slot"),("abort on unwind during reconstruct","support/ctor.rs reconstruct/abort_on_unwind")],
  [("is_initialized","whether the slot owns a live value","support/ctor.rs Slot")],
  ["drop events","as_opt/as_opt_mut","process exit status of a forked run for the documented abort"])

prop("C03", "Async futures bridged between Rust and C++ lose no wakeup and complete once",
  "A Rust future driven from C++ behaves under every interleaving of polling, waking, moving, cancelling and dropping exactly as the same future polled directly: it is polled with a waker that wakes the current task, writes its output exactly once and only when it is ready, and is destroyed exactly once, whether it completed, was cancelled or was never polled. "
  "Every waker handed across the boundary can be cloned, woken and dropped any number of times from any side, each wake reaching the task that created it, with its reference count balanced at the end. "
  "Once wake-ups are delivered, every pending bridged future makes progress.",
  ["schedules","fault_sequences"],
  "every interleaving of task polls, wakes (by value and by reference), spurious polls, waker clones and drops on any side, moves of the future handle, cancellation, and panics while polling",
  "The repository has three unit tests for one of the three bridges, each with a fixed poll order; the other bridges and the waker have none.",
  ["support/rs_std/erased_future.rs","support/rs_std/dyn_erased_future.rs","support/rs_std/dyn_erased_future.h","support/rs_std/dyn_future.rs","support/rs_std/waker.h","support/rs_std/waker.cc","support/rs_std/cpp_waker.h","support/rs_std/cpp_waker.cc"],
  [("type-erased poll and drop thunks","support/rs_std/dyn_erased_future.rs"),("waker borrowed from C++ without taking its reference","support/rs_std/dyn_erased_future.rs poll thunk"),("move leaves an inert future behind","support/rs_std/dyn_erased_future.h"),("single completion of a future handed to C++","support/rs_std/dyn_future.rs")],
  [("waker reference count","clones outstanding minus drops","support/rs_std/waker.cc")],
  ["poll results","output slot contents","drop counts","task wake counts"])

prop("C04", "A callable shared by C++ and Rust has one owner and is freed exactly once",
  "Over any history in which a Rust closure is wrapped for C++ and the handle is moved, swapped, assigned, converted to another C++ callable, called or passed back to Rust, exactly one handle owns the closure: calls reach it with the given arguments and results, and it is destroyed exactly once when its owner goes away. "
  "A handle that was moved from, consumed or left empty reports itself empty and never calls or destroys the target again; a consuming call happens at most once. "
  "Passing such an empty handle across the language boundary yields a callable that fails loudly instead of touching freed memory.",
  ["histories","fault_sequences"],
  "every sequence of construction, move, self-move, swap, assignment (also to null), call, consuming call, conversion and boundary crossing over a set of handles",
  "One C++ test makes three calls; there is no test on the Rust side and none that counts destruction of the target.",
  ["support/rs_std/dyn_callable.h","support/rs_std/dyn_callable.rs"],
  [("manager function that relocates or disposes the target","support/rs_std/dyn_callable.h"),("boundary encoding chooses boxed Rust closure or fallback","support/rs_std/dyn_callable.h DynCallableAbi / dyn_callable.rs")],
  [("type-erased state","inline words owning the target","support/rs_std/dyn_callable.h")],
  ["call log","destruction log of the targets","operator bool"])

prop("C05", "Bridged values cross the language boundary intact and with a single owner",
  "Any value of a bridgeable type (arithmetic values, tuples, pairs, options and boxed values, in any nesting) that is encoded on one side and decoded on the other compares equal to the original, in both directions and over any number of round trips. "
  "Ownership is transferred exactly once: whatever owned resources it contains are released exactly once over the whole history, also when a value is dropped instead of forwarded. "
  "Both languages agree on the size of the encoding, and nothing is read or written outside it.",
  ["histories","inputs"],
  "every nesting of bridgeable types, every value including absent options, and every history of forwarding, dropping and returning values between the two languages",
  "The four tests encode fixed integers in C++ only; the Rust implementation of the same wire format is never run against the C++ one.",
  ["support/bridge.h","support/crubit_bridge_rust/src/bridge.rs"],
  [("size computed from nested schemas","support/bridge.h / bridge.rs SIZE"),("ownership given up while encoding","bridge.rs TransmuteAbi/BoxedAbi")],
  [("buffer position","remaining bytes of the encoding","Encoder/Decoder")],
  ["decoded values","live-object registry on both sides","guard bytes around the buffer"])

prop("C06", "Rust values owned by C++ are dropped exactly once over any C++ value history",
  "A Rust value exposed to C++ through generated class bindings, or held in the C++ support types for optional, result, movable and uninitialised storage, is dropped exactly once over any sequence of C++ construction, copy, move, assignment (including self-assignment), swap, emplacement, extraction and destruction. "
  "Copies are made by cloning, so that each handle owns a distinct value; reads through a live handle always see the value last stored in it, and a moved-from handle can be destroyed or assigned to. "
  "Active-alternative queries on optional and result types agree with the value actually stored.",
  ["histories","programs"],
  "every history of C++ value operations over a pool of handles, for several Rust types (with drop glue, default, clone, fallible and consuming methods) bound by the real generator",
  "Generator tests compare token streams of the emitted text and never run it; the C++ support tests run a handful of fixed sequences.",
  ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs","cc_bindings_from_rs/generate_bindings/generate_function.rs","support/internal/slot.h","support/internal/memswap.h","support/internal/move_assign.h","support/movable.h","support/rs_std/option.h","support/rs_std/result.h"],
  [("generated special member functions","cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"),("manual lifetime storage","support/internal/slot.h")],
  [("live values","set of Rust values constructed and not yet dropped","harness registry")],
  ["Rust-side construct/clone/drop log","values read back through C++"])

prop("C07", "A Rust panic never unwinds across the language boundary",
  "If Rust code called from C++ through generated bindings or the support library panics at any point - in a function, method, constructor, destructor, clone, trait implementation, formatter, iterator or future - the process terminates at the boundary and no C++ frame of the caller resumes or is unwound; only functions that their author declared `extern \"C-unwind\"` are exempt. "
  "Everything executed before the panic has its normal effect.",
  ["fault_sequences","programs"],
  "every boundary entry point and every occurrence of a call to it within a history at which the panic is injected",
  "No test panics inside a thunk; a changed calling convention or a missing guard compiles and passes.",
  ["cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs","docs/overview/panics_and_exceptions.md","support/rs_std/dyn_erased_future.rs","support/rs_std/dyn_callable.rs"],
  [("thunks have a non-unwinding calling convention","cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs")],
  [], ["exit signal of a forked run","markers written by the calling C++ frame"])

prop("C08", "Streamed text is chunk-insensitive and survives sink failures",
  "Bytes written through the lossy formatter in any partition into chunks, fills and single bytes produce exactly the text of decoding the concatenated bytes at once with invalid sequences replaced, and an incomplete trailing sequence is replaced when the writer is flushed. "
  "If the sink fails at any write, the failure is reported to the caller, no byte is emitted twice or out of order, and the amount reported as written matches what the sink accepted.",
  ["inputs","fault_sequences"],
  "every byte sequence, every partition into write calls, every interleaving with fills and flushes, and a sink failure at every possible write",
  "The tests list a few hand-picked splits; sink failure is tried in two fixed cases, and the binding-layer wrapper has no test.",
  ["support/rs_std/lossy_formatter.rs","support/rs_std/lossy_formatter_for_bindings.rs","support/rs_std/lossy_formatter_for_bindings.h"],
  [("carry of an incomplete sequence between writes","support/rs_std/lossy_formatter.rs")],
  [("pending bytes","prefix of a possibly valid sequence not yet emitted","support/rs_std/lossy_formatter.rs")],
  ["text received by the sink","return values"])

prop("C09", "Memoized queries equal direct evaluation under any order, cycle or failure",
  "For any set of interdependent memoized queries, any order of requests and any number of independent databases, each answer equals what evaluating the query directly, without any cache, would give, including the documented default used to break dependency cycles (where the answer does not depend on which query of a cycle is asked first); an answer that was computed while a cycle was being broken is not reused outside of it. "
  "On acyclic dependencies each query runs at most once per key and database. "
  "If a query fails or panics, later requests behave as if the failed request had never been made, and no database ever observes another database's answers.",
  ["histories","programs","fault_sequences"],
  "every dependency graph (with self-loops and overlapping cycles), request order, number of databases created and dropped, and panic placed in any query",
  "The tests use three fixed graphs and a single database each and stop at the first panic.",
  ["common/memoized.rs"],
  [("active set and unwinding counter decide what may be cached","common/memoized.rs internal_memoized_call"),("per-database tables","common/memoized.rs query_group!/memoized!")],
  [("active queries","keys being computed on the current stack","common/memoized.rs MemoizationTable")],
  ["answers","execution counts per key"])

prop("C10", "Every reported binding error survives to the report, in its scope, exactly once",
  "Over any nesting of items and any mixture of reported errors, error collections and fatal errors, including early returns and panics unwinding out of nested items, the final error report contains every error that was reported exactly once, attributed to the item that was current when it was reported, and nothing else. "
  "Leaving an item by any path restores the enclosing item, fatal errors are never lost silently, and the report's content does not depend on the order of unrelated items.",
  ["histories","fault_sequences"],
  "every tree of items, every interleaving of reports, collection consolidations and discards, and unwinding out of any item",
  "The unit tests report a handful of errors from a single scope each and never unwind.",
  ["common/error_report.rs","common/errors.rs"],
  [("scope guards restoring the previous item","common/error_report.rs ItemScope"),("loud failure when collected errors are dropped unreported","common/errors.rs / FatalErrors")],
  [("current item","item to which reported errors are attributed","common/error_report.rs ErrorReport")],
  ["JSON report","fatal error string","panic on drop"])

prop("C11", "Formatting through an external tool yields its complete output or an error",
  "When generated source text is piped through an external formatter, then for any text size and any behaviour of that tool - partial reads and writes, output before input is consumed, early exit, failing exit status, being killed by a signal, large error output, interrupted system calls - the call terminates and returns either exactly the complete output the tool produced with a successful status, or a failure. "
  "A truncated, empty or unformatted text is never returned as a success when the tool failed or could not be fed completely.",
  ["schedules","fault_sequences"],
  "every interleaving of reads and writes by the tool with those of the caller, every text size relative to pipe capacity, every exit status or signal at any point of the exchange",
  "Tests run the real formatter on small well-formed inputs; the tool never misbehaves and everything fits in a pipe buffer.",
  ["common/token_stream_printer.rs"],
  [("writer thread feeding the tool while output is drained","common/token_stream_printer.rs pipe_string_through_process"),("exit status check","common/token_stream_printer.rs")],
  [("pipes","unsent input and unread output","common/token_stream_printer.rs")],
  ["returned text or failure"])

prop("C12", "The bindings generator exits successfully only if every output is complete",
  "When the command line generator reports success, each requested output file exists and has exactly the complete content for the given input, whatever short writes or interruptions happened on the way. "
  "If any output cannot be written completely, an input cannot be read or a formatter fails, the generator reports failure with a non-zero status; it never reports success with missing, truncated or mixed outputs. "
  "Which outputs and reports are requested neither changes the content of the others nor makes a run fail.",
  ["fault_sequences","configurations"],
  "every I/O operation of a run and every fault kind on it (no space, I/O error, permission, short write, interruption), for every combination of requested outputs and formatters",
  "The integration tests run with working disks and formatters only.",
  ["cc_bindings_from_rs/lib.rs","cc_bindings_from_rs/cc_bindings_from_rs.rs","cc_bindings_from_rs/run_compiler.rs","cc_bindings_from_rs/cmdline.rs","common/token_stream_printer.rs"],
  [("errors of every write are propagated to main","cc_bindings_from_rs/lib.rs write_file/run_with_tcx"),("compiler errors and callback errors are both reported","cc_bindings_from_rs/run_compiler.rs")],
  [("output files","header, implementation, touched C++ file, error report","cc_bindings_from_rs/lib.rs run_with_tcx")],
  ["exit status","files on disk after exit"])

prop("C13", "Generated output is byte-identical on every run with the same inputs",
  "Two runs of the generator with the same inputs and flags produce byte-identical outputs, independent of hash seeds, memory layout, environment, working directory, process identity, time, directory enumeration order and unrelated earlier runs. "
  "Ordering decisions in the tools (dependency order, set iteration, error reports) depend only on the input.",
  ["schedules","configurations"],
  "every value of the ambient nondeterminism: hash seeds, address space layout, allocator behaviour, clock, pid, environment and directory order, for every input crate",
  "Golden comparisons run once per build with whatever ambient values the machine supplied; an order that leaks from a hash map agrees most of the time on small inputs.",
  ["cc_bindings_from_rs/generate_bindings/lib.rs","cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs","cc_bindings_from_rs/generate_bindings/generate_template_specialization.rs","cc_bindings_from_rs/toposort.rs","common/error_report.rs","cc_bindings_from_rs/lib.rs"],
  [("sorting before emission","cc_bindings_from_rs/generate_bindings/lib.rs"),("deterministic topological order with a tie-breaker","cc_bindings_from_rs/toposort.rs")],
  [("hash-ordered intermediate collections","sets and maps whose iteration order must not reach the output","cc_bindings_from_rs/generate_bindings/lib.rs")],
  ["bytes of all outputs"])

prop("C14", "An incremental cargo bindings build equals a clean build after any crash",
  "Whenever the cargo subcommand exits successfully, the headers and the static library it leaves correspond to the current sources, features and toolchain, exactly as a build from an empty target directory would, whatever happened before: earlier successful runs, edits, configuration switches, removed outputs, and runs that failed or were killed at any point, with partially written files left behind. "
  "A failing step makes the command fail; it never reports success with stale, truncated or missing outputs.",
  ["histories","crash_points","fault_sequences","configurations"],
  "every history of edits, feature and output-directory switches, output deletions and runs, with a crash or I/O fault at every file system operation of any run",
  "The tests parse command lines and directory layouts and one end-to-end run on a clean directory; no run ever follows a killed or reconfigured one.",
  ["cc_bindings_from_rs/cargo-cpp_api_from_rust.rs","cc_bindings_from_rs/toposort.rs"],
  [("reuse of intermediate bindings when cargo reports a fresh artifact","cc_bindings_from_rs/cargo-cpp_api_from_rust.rs generate_crate_bindings"),("copy of intermediates to final locations","cc_bindings_from_rs/cargo-cpp_api_from_rust.rs")],
  [("intermediate bindings","per crate and configuration header and source next to cargo's artifacts","deps directory"),("final outputs","include/crubit/*.h and lib*.a","profile or output directory")],
  ["exit status","content of final headers and static library"])

prop("C15", "Smart pointers shared with C++ release their object and memory exactly once",
  "For shared and unique owning pointers used from both languages, over any history and any interleaving across threads of cloning, projecting, moving, releasing, re-adopting and dropping handles, the managed object is destroyed exactly once, by the last strong owner, never while an owner remains and never afterwards; its memory is freed exactly once with the size and alignment it was allocated with, and a custom deleter runs exactly once. "
  "Reported ownership counts equal the number of live owners; null pointers are inert. "
  "A panic in user code run by one of these operations neither leaks an owner nor destroys twice.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of handle operations by several owners on both sides of the boundary (including weak references held by C++), and a panic in any projection, deleter or destructor",
  "The Rust side of these types has no test in the buildable suite, and the upstream ones are single-threaded examples.",
  ["support/cc_std_impl/shared_ptr.rs","support/cc_std_impl/unique_ptr.rs","support/cc_std_impl/cpp_std_allocator.rs","support/cc_std_impl/std_allocator.h"],
  [("control block with destroy and deallocate hooks","support/cc_std_impl/shared_ptr.rs SharedInner"),("release nulls the handle before handing out parts","shared_ptr.rs/unique_ptr.rs")],
  [("strong and weak counts","owners keeping the object and the block alive","control block")],
  ["destruction and deallocation log","use_count"])

prop("C16", "The shared vector keeps its elements and allocation consistent through failures",
  "Over any history of operations on the C++-compatible vector, interleaved with access from the other side through its three-word representation, the elements equal those of an ordinary vector given the same operations, each element is destroyed exactly once, and the buffer is always owned by the C++ allocator with matching size and alignment and freed exactly once. "
  "If an allocation fails or user code (clone, comparison, predicate, iterator, destructor) panics in the middle of an operation, the vector stays valid: it can be read, reused and destroyed without touching freed memory or destroying an element twice. "
  "Fallible reservation reports failure instead of terminating.",
  ["histories","fault_sequences"],
  "every sequence of vector operations and boundary crossings, every element type size class, an allocation failure at any allocation and a panic in any user callback",
  "There is no test of this type in the buildable suite; upstream tests cover single operations without failures.",
  ["support/cc_std_impl/vector.rs","support/cc_std_impl/cpp_std_allocator.rs"],
  [("operations borrow the buffer as a Rust vector and write it back","support/cc_std_impl/vector.rs mutate_self_as_vec")],
  [("begin/end/capacity pointers","the representation shared with C++","support/cc_std_impl/vector.rs")],
  ["element sequence","allocation ledger","drop log"])

prop("C17", "Source-scanning tools give the full result or an error for any way of reading",
  "The tools that scan source files (collecting requested template instantiations, extracting inline C++ into a header, formatting Rust files with inline C++ through external formatters) produce the same complete result however the operating system and the external formatters deliver text - in short reads and writes, with interrupted calls, streaming or holding back output, in any hash seed - and report an error, never a partial or altered result, when a file cannot be read, parsed or written, or rustfmt fails. "
  "A tool never waits forever on an external formatter that is ready to go on. A snippet whose clang-format fails stays as it was. A failed run leaves the header it should have replaced, and source files it did not finish formatting, as they were, unless writing itself failed. "
  "The collected list does not depend on the order in which the same files are given.",
  ["fault_sequences","schedules"],
  "every partition of file content into reads and writes, every call at which an error or interruption is injected, every way the external formatters read, write, fail and end, every order of the inputs and every hash seed",
  "The tests read small temporary files once each, with one missing-file case, and formatters are replaced by a fallback.",
  ["rs_bindings_from_cc/collect_instantiations.rs","support/extract_cpp_from_rust/extract_cpp_from_rust.rs","support/extract_cpp_from_rust/parse_inline_cpp_macros.rs","support/extract_cpp_from_rust/rust_with_cpp_fmt.rs"],
  [("errors of reads are propagated","rs_bindings_from_cc/collect_instantiations.rs"),("sorted output","rs_bindings_from_cc/collect_instantiations.rs"),("formatter output is read while its input is written","support/extract_cpp_from_rust/rust_with_cpp_fmt.rs")],
  [], ["returned list or error","output files and exit status"])

prop("C18", "Concurrent requests to the explorer service are isolated and always answered",
  "Every request to the online explorer gets exactly one answer, computed from that request's own input alone, however many requests overlap and in whatever order their tools finish; no file of another request is read, overwritten or returned. "
  "If a tool crashes, fails, is missing or leaves no or unreadable output, only that request gets an error answer, and a success answer is never built from a failed run; temporary files are gone once the request has been answered. "
  "Requests for static files never return content from outside of the served directory.",
  ["schedules","fault_sequences","inputs"],
  "every interleaving of overlapping requests and their tool processes, every tool outcome, and every request path",
  "The service tests send one well-formed request at a time, need a packaged tool to be present and are not part of the buildable suite.",
  ["crubit_explorer/src/main.rs","crubit_explorer/src/api.rs","crubit_explorer/src/doxygen.rs"],
  [("private temporary directory per request","crubit_explorer/src/api.rs prepare_input_environment"),("parent-directory components rejected","crubit_explorer/src/main.rs serve_frontend")],
  [("request directory","input and outputs of one request","crubit_explorer/src/api.rs CompileInput")],
  ["HTTP responses","temporary directory contents"])

prop("C19", "C++ strings held from Rust keep their bytes and are destroyed exactly once",
  "Over any history of making, copying, moving, converting, writing, comparing, viewing, printing and dropping C++ strings held from Rust, whether boxed or built in place, and of views of them, each string and view reads back exactly the bytes last stored, its length, equality, order and hash agree with those bytes, and text conversions agree with UTF-8 decoding (display replaces what is invalid, a failing sink is reported and not written to again). "
  "Every C++ string object is constructed once, never moved by copying its bytes, and destroyed exactly once; copies are independent of the original. "
  "Empty and null views read as empty, never as a null slice.",
  ["histories","inputs","fault_sequences"],
  "every history over several strings, every byte content including invalid UTF-8 and embedded nulls, and every failing write of the sink they are printed to",
  "The string tests need a Bazel build with libc++ and are not part of the buildable suite; they compare fixed texts and never count destructions.",
  ["support/cc_std_impl/string.rs","support/cc_std_impl/string_view.rs","support/cc_std_impl/lossy_utf8.rs","support/cc_std_impl/slice_ptr.rs","support/cc_std_impl/conversion_function_helpers.h"],
  [("boxed string handle","support/cc_std_impl/string.rs string_wrapper"),("pinned in-place string","support/cc_std_impl/string.rs new_string"),("view over foreign bytes","support/cc_std_impl/string_view.rs")],
  [("owned C++ string","pointer to, or place of, one std::string","support/cc_std_impl/string.rs")],
  ["bytes read back","construction and destruction of std::string objects","text written to the sink"])

prop("C20", "Interned values are equal exactly when their contents are",
  "Over any history of interning texts, byte strings, lists and single values into any number of interners that share memory arenas, two handles from one interner are equal exactly when the contents they were made from are equal, their order and hash agree with that, and handles of different contents are never equal, whichever interner they come from; the empty text or list is a content like any other. "
  "Every handle shows its content, at the same address, for as long as the arena lives, whatever becomes of the buffer it was made from, and content that an interner already has is not stored again. "
  "When the arena runs out of memory, or the hash or comparison of a value panics, the failure reaches the caller, all earlier handles stay as they were, and the interner remains usable.",
  ["histories","inputs","fault_sequences"],
  "every history of interning (any content, empty and zero-sized included) over several interners and arenas, interleaved with other users of the arenas, exhausted arenas and panics at any comparison or hash",
  "The unit tests intern a few fixed, non-empty values into an arena of their own; what handles share depends on everything else the arena was used for before.",
  ["common/interner.rs"],
  [("lookup before storing","common/interner.rs Interner::intern/intern_slice/intern_str"),("comparison by pointer","common/interner.rs Interned eq/cmp/hash")],
  [("set of stored contents","references into the arena","common/interner.rs Interner::map")],
  ["equality, order and hash of handles","contents and addresses read through handles","memory taken from the arena"])

prop("C21", "C++ loops over Rust iterators see each item once, in order; nothing drops twice",
  "Over any history of C++ code that begins, advances, reads, compares, copies, moves, swaps, leaves early and destroys iterations over Rust iterators and collections, each iteration yields exactly the items that the Rust iterator produces, each once and in order, ends when Rust's does, and asks Rust for one item ahead and never again after the end. "
  "An iteration over an iterator that lives elsewhere continues and shares its position; copies are independent; items moved out belong to the taker; what is borrowed from a collection shows, and changes, the collection itself; a collection turned into an iterator gives up all its items. "
  "Every item, iterator and collection is destroyed exactly once, also when the loop is left or its body throws.",
  ["histories","fault_sequences"],
  "every history over several adapters of owning, pointing and borrowing kinds, with copyable, move-only and plain items, loops left at any item and consumers that throw at any item",
  "The header's own test is one static assertion and the golden tests run a few loops from start to end; nothing counts destructions, leaves a loop in the middle, or uses an adapter after it was copied, moved or swapped.",
  ["support/rs_std/iterator_adapter.h","cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"],
  [("one item of lookahead","support/rs_std/iterator_adapter.h IteratorAdapter::next"),("begin, end and into_iter of bound types","cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs generate_begin_and_end_for_type"),("iterators by pointer","support/rs_std/iterator_adapter.h impl<T*, Iterator>")],
  [("source_","the Rust iterator, or a pointer to it","support/rs_std/iterator_adapter.h"),("current_item_","the item ahead, or none at the end","support/rs_std/iterator_adapter.h")],
  ["values read through adapters","calls of Iterator::next","destruction of items, iterators and collections"])

prop("C22", "Rust bindings for C++ depend only on what the headers declare",
  "The bindings that the generator for C++ headers emits (Rust and C++), its error report and its fatal errors are the same, byte for byte, whenever it is given the same declarations. "
  "The addresses at which the importer holds declarations, the keys of hash tables, the order in which a serialised map lists its entries, and requests that the same process answered before make no difference, also when some of the declarations cannot be bound.",
  ["inputs","programs","histories"],
  "every set of declarations with every assignment of identifiers to them, every hash seed, every order of map entries and every earlier request",
  "Tests generate bindings once, in one process with one set of addresses, and compare them with goldens; a dependence on addresses or hashes shows only when the same input is bound again under other ones.",
  ["rs_bindings_from_cc/generate_bindings","rs_bindings_from_cc/ir.rs","common/error_report.rs","common/memoized.rs"],
  [("items by ID, which is an address","rs_bindings_from_cc/ir.rs"),("entries of the report by item ID","common/error_report.rs ErrorReport"),("memoised queries","rs_bindings_from_cc/generate_bindings/database/db.rs")],
  [("IR","declarations with IDs, parents and child lists","rs_bindings_from_cc/ir.rs IR")],
  ["all outputs of generate_bindings and of its C entry point"])

prop("C23", "A C++ declaration that cannot be bound is reported and harms no other",
  "Whatever a C++ header declares, and whichever of its declarations use something that is not supported, generating Rust bindings ends with an answer and never with a crash. "
  "Declarations that do not depend on an unsupported one get the bindings they would get without it. "
  "Every declaration of the bound target is either bound or named in the error report with at least one error, and one that is annotated as having to be bound and is not, without the importer having said why, is a fatal error; without such a declaration or a misused annotation there is none.",
  ["inputs","programs","fault_sequences"],
  "every set of declarations and every choice of those among them that use an unknown attribute or an unsupported type, are of an unsupported kind, or are missing",
  "Golden and unit tests pin one unsupported construct at a time, alone in a header; that it takes nothing else along, and that nothing disappears without a word, has to hold for every combination.",
  ["rs_bindings_from_cc/generate_bindings","rs_bindings_from_cc/ir.rs","common/error_report.rs"],
  [("errors instead of items","rs_bindings_from_cc/generate_bindings/lib.rs generate_item"),("has_bindings","rs_bindings_from_cc/generate_bindings/has_bindings.rs"),("required bindings","rs_bindings_from_cc/generate_bindings/lib.rs must_bind")],
  [("report","errors by declaration","common/error_report.rs ErrorReport")],
  ["generated Rust and C++, error report, fatal errors"])

prop("C24", "Both halves of the bindings for a C++ header fit each other and the header",
  "The Rust and the C++ that are generated for a C++ header belong together: the Rust is well formed and defines no name twice in a scope, each thunk it declares is defined exactly once in the C++ and the other way round, and both agree on the number of parameters and on how each parameter and the result are passed, what pointers point to and whether that may be written. A thunk calls the function it stands for, as the header declares it, with each parameter once and in order; without a thunk Rust only calls functions that C could call (not inline, virtual, of a class template or another calling convention, no classes by value, and no other function of the same symbol). "
  "Each struct and union has the size, the alignment and the offsets of fields of its C++ class, and both halves assert them. Rust copies an object as bytes exactly if C++ does, pins what C++ cannot move as bytes, and destroys it by the C++ destructor if that does something, once, and its members not a second time; it may be sent to and shared with other threads as the header says. This holds whichever declarations of the header cannot be bound.",
  ["inputs","programs","fault_sequences"],
  "every set of declarations and every choice of unsupported ones among them",
  "Golden tests show one construct per file; clashes of names, thunks emitted by one half only, and layouts with unusual combinations of fields appear when constructs meet.",
  ["rs_bindings_from_cc/generate_bindings"],
  [("thunks","rs_bindings_from_cc/generate_bindings/generate_function_thunk.rs"),("layout of records","rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs")],
  (),
  ["generated Rust and C++"])

prop("C25", "A message about C++ headers is refused when it is read, or can be used",
  "The generator of bindings for C++ headers gets what the headers declare as a message of another part, and checks it once, when it reads it: a message with text that is not UTF-8, a value of an enumeration that is not known or not specified, or an alternative that is not set, in a field that is used, is refused with an error that says why. Reading a message never panics, whatever is missing in it or too much. "
  "Once a message is accepted, every view of it can be read without a panic, and a message whose only defects are such values gives bindings.",
  ["inputs","fault_sequences"],
  "every message, with damage at every field, element and alternative",
  "Tests read well-formed messages, and one message per defect that somebody thought of; a check that is missing for one field shows up only when exactly that field is wrong.",
  ["rs_bindings_from_cc/ir.rs","rs_bindings_from_cc/proto_to_ir.rs"],
  [("ProtoToIr: validate once, read infallibly","rs_bindings_from_cc/ir.rs"),("reading of a message","rs_bindings_from_cc/proto_to_ir.rs")],
  (),
  ["ir::proto_to_ir and the views of what it returns"])

prop("N01", "Generated bindings preserve the meaning of every supported Rust or C++ API",
  "For every item the generators accept, the emitted declaration and thunk have the same name, type, layout, calling convention and behaviour as the original; items that cannot be represented faithfully are rejected with a diagnostic.",
  ["inputs","programs"], "every input program",
  "Golden tests cover samples of the input language.",
  ["cc_bindings_from_rs/generate_bindings","rs_bindings_from_cc/generate_bindings"],
  [("type formatting and layout assertions","cc_bindings_from_rs/generate_bindings/format_type.rs")])
prop("N02", "Mutable references passed from C++ never alias unnoticed",
  "The aliasing check made before calling into Rust reports a conflict exactly when a mutable region overlaps another region of the same call.",
  ["inputs"], "every set of regions",
  "Unit tests list a few overlaps.",
  ["support/internal/check_no_mutable_aliasing.h","support/internal/check_no_mutable_aliasing.cc"],
  [("sort and sweep over address ranges","support/internal/check_no_mutable_aliasing.cc")])
prop("N03", "Characters, integers, slices and strings convert losslessly across the boundary",
  "Conversions between the Rust primitive vocabulary types and their C++ counterparts accept exactly the valid values and preserve them.",
  ["inputs"], "every value", "Unit tests sample values.",
  ["support/rs_std/char.h","support/rs_std/int.h","support/rs_std/slice_ref.h","support/rs_std/str_ref.h"],
  [("validity checks at construction","support/rs_std/char.cc")])
prop("N04", "Template and forward-declaration names resolve to the same type everywhere",
  "Two mentions of the same C++ type in macros of different crates denote one Rust type, different types never do, and safe casts are available exactly between equivalent ones.",
  ["inputs","programs"], "every pair of type spellings", "Compile-fail and unit tests sample spellings.",
  ["support/forward_declare.rs","support/cc_template/cc_template_impl.rs"],
  [("symbol tuple encoding","support/forward_declare.rs")])
prop("N05", "Command lines are interpreted completely and unambiguously",
  "Every accepted command line determines one configuration, all given flags take effect, and contradictory or malformed ones are rejected.",
  ["inputs"], "every argument vector", "Unit tests sample arguments.",
  ["cc_bindings_from_rs/cmdline.rs"],
  [("clap definition","cc_bindings_from_rs/cmdline.rs")])
prop("N06", "Lifetime and nullability analyses report only real violations",
  "The static analyses accept correct code, and each diagnostic they report corresponds to an execution that violates the annotated contract.",
  ["programs"], "every analysed program", "Tests sample programs.",
  ["lifetime_analysis","nullability"],
  [("dataflow analysis on the clang AST","lifetime_analysis")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
