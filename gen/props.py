#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, note=note, na=na))


p("R01", "Out-of-range element access and slicing raise, never touch memory",
  "Indexing a vec, fixed array or string, assigning to an element, or slicing with a negative, past-the-end or inverted range (an end of -1 stands for the length) raises a catchable error before any element memory is read or written, for every index value, length and element size. In-range accesses address exactly the requested element, and append, concat, copy, push and grow never write beyond the storage they allocated.",
  ["inputs", "programs", "histories"], "every index/slice operand, length, capacity and element size, and every source form that reaches an element",
  "Tests use a handful of constant indices on small vecs; boundary values (== length, negative as huge unsigned, start==end==length) and every source construct that lowers to an element access cannot be enumerated.",
  ["runtime/nutils/vec.c", "runtime/nutils/string.c", "runtime/nutils/nutils.c", "runtime/nutils/array.h", "src/linear.c"],
  [("index and slice guards", "runtime/nutils/vec.c: rti_vec_access, rt_vec_element_addr, rt_vec_slice; runtime/nutils/nutils.c: rt_array_element_addr"),
   ("buffer sizing", "runtime/nutils/vec.c: rt_vec_append/concat/copy/grow; runtime/nutils/string.c: string_new/concat"),
   ("compiler selects the checked access", "src/linear.c: linear_vec_access, linear_array_access, linear_vec_assign")],
  observe=["value returned or error raised by v[i], v[i]=x, v.slice(a,b), v.append, v + w"],
  technique="path-sensitive guard/difference-bound analysis on LLVM IR + lowering lint",
  note="Every path of each accessor is enumerated over the compiler IR of the current tree; an element address is accepted only if the path conditions imply 0<=index<length. Assumes element_size and length/capacity fields are consistent on entry.")

p("R02", "A raised error is never lost, skipped or run past",
  "When a runtime operation or a call to a fallible function fails, control reaches the nearest enclosing catch (or leaves the function, or ends the program with a report for an uncaught panic) before any later statement runs or its result is used. A native operation that raises an error stops without performing the rest of its effect, and every native function that can raise is declared fallible to the language.",
  ["programs", "inputs", "fault_sequences"], "every expression/statement form that can fail, and every failing path inside every native operation",
  "Tests exercise a few failing calls; the guarantee is about every failing path of every native function and about every lowering site in the compiler.",
  ["src/linear.c", "runtime/processor.c", "runtime/nutils", "runtime/rt_chan.c", "std"],
  [("error/panic test after each fallible call", "src/linear.c: linear_has_panic, linear_has_error, linear_call"),
   ("raise then leave", "runtime: every function that raises"),
   ("fallible marker on native declarations", "std/**/*.n #linkid declarations")],
  observe=["catch blocks taken, statements executed after a failing call, process exit status and message"],
  technique="path typestate (raise => leave) + emission-order dataflow in the code generator + cross-language declaration match",
  note="All syntactic paths of all raising runtime functions and all lowering functions; declarations of std matched against the may-raise closure of the C call graph.")

p("R03", "Compiled code and native runtime agree on every call's arguments and result",
  "For every native function the compiler calls implicitly or the standard library binds by name, the number of arguments, their kind and width, and the result seen by compiled code are the ones the native function is defined with. Every bound name exists, and structures shared by both sides have the same field order, size and offsets.",
  ["programs", "inputs", "configurations"], "every implicit runtime call and every native declaration of the standard library on Linux",
  "Each mismatch only shows for particular argument values (upper bits, trailing argument, extra field); the test programs call a fraction of the bindings.",
  ["src/lir.h", "src/linear.c", "std", "runtime", "utils/type.h", "utils/custom_links.h"],
  [("implicit runtime calls", "src/linear.c: push_rt_call sites; src/lir.h RT_CALL_*"),
   ("named bindings", "std/**/*.n #linkid"), ("shared structures", "std types vs runtime C structs")],
  observe=["argument and result values observed by native functions and by nature programs"],
  technique="cross-language signature and layout matching over typed IR and parsed declarations",
  note="Compares the C prototypes from debug info with each call site emitted by the code generator and each #linkid declaration; variadic libc functions are compared on their fixed part.")

p("R04", "The collector sees every pointer the runtime stores in heap objects",
  "For every object allocated on the collected heap, by the runtime or by compiled code, the pointer map used for that object marks every word that holds a reference to collected memory, and the allocated size covers the whole object. This includes the maps the compiler builds for strings, vectors, maps, sets, unions, interfaces, functions, arrays, tuples and structs of any size and nesting. References a coroutine holds outside its stack (its function, argument, future, pending error, traces, channel queue entry) are handed to the collector, and no memory the collector does not scan becomes the only holder of a collected object.",
  ["inputs", "schedules", "histories"], "every native allocation site and every field of every native heap structure",
  "A missed pointer is only observable if a collection runs while that word is the last reference; tests rarely collect in that window.",
  ["runtime/rtype.h", "runtime/allocator.c", "runtime/collector.c", "runtime/nutils", "src/rtype.h", "utils/type.h"],
  [("static pointer maps", "runtime/rtype.h: GC_RTYPE definitions"), ("allocation with map", "rti_gc_malloc call sites"), ("compiled maps", "src/rtype.h: reflect_type, rtype_*_gc_bits"), ("heap bits", "runtime/allocator.c: heap_arena_bits_set"), ("coroutine roots", "runtime/collector.c: gc_work, scan_stack")],
  observe=["data reachable through runtime-allocated objects survives any collection"],
  technique="layout/pointer-map agreement between typed IR struct layouts and initialised maps, allocation-site analysis",
  note="Struct layouts come from debug info of the current tree; maps from the global initialisers.")

p("R05", "Reference stores into heap memory are visible to a running collection",
  "Whenever compiled code assigns a reference (pointer, channel, function value) to memory outside the stack, or the runtime stores one into a vector, map, set, wait queue or closure, a concurrent collection learns of it while marking is active: the overwritten reference is reported before it is lost, the stored one is reported unless the storing coroutine's stack is already scanned, and a reported object is queued where a worker still picks it up. No reachable object is reclaimed. While no marking is active the store still takes place with the same value.",
  ["schedules", "programs", "histories"], "every assignment form and every native store, at every point of a concurrent mark",
  "Losing a reference needs a particular interleaving of mutator store and marking; a stress test reaches it rarely and not reproducibly.",
  ["src/linear.c", "runtime/collector.c", "runtime/memory.h", "runtime/nutils"],
  [("assignment lowering", "src/linear.c: linear_*_assign"), ("barrier primitive", "runtime/collector.c: write_barrier, rti_write_barrier_ptr, shade_obj_grey")],
  observe=["contents of reachable objects after any number of collections"],
  technique="lowering-path analysis (store without barrier) + path rules on the barrier primitives",
  note="Covers every lowering of an assignment to a heap-resident target and every path of the barrier primitives.")

p("R06", "A collection cycle runs its phases in order and frees only unreachable objects",
  "Every collection cycle stops all mutators before it takes roots and again before it ends marking, enables reference tracking before marking starts and disables it only after sweeping data is settled, and restarts all mutators on every exit. Every root set (globals, constant pool, every coroutine's stack and pending values) is scanned in each cycle, and memory allocated during marking is kept.",
  ["schedules", "histories"], "every interleaving of mutators with a cycle and every early exit of the cycle",
  "Phase-order errors need a mutator to act inside a window of microseconds; tests cannot schedule that.",
  ["runtime/collector.c", "runtime/allocator.c", "runtime/processor.c", "runtime/processor.h"],
  [("cycle driver", "runtime/collector.c: runtime_gc"), ("root scanning", "runtime/collector.c: scan_stack, scan_global, scan_pool"),
   ("allocation during marking", "runtime/allocator.c: gc_malloc path"), ("stop/restart", "runtime/processor.c: processor_all_need_stop/start")],
  observe=["reachable data intact, all coroutines continue after each collection"],
  technique="typestate automaton over the cycle driver's paths + must-scan root coverage",
  note="Automaton over all paths of the driver with helper inlining.")

p("R07", "Channels deliver each sent value once, in order, and close wakes everybody",
  "Every value sent on a channel is received at most once and in the order it was sent per channel; a blocked sender or receiver (including one blocked in select) is woken exactly once by a matching operation or by close, and a woken select commits to exactly one case. After close, buffered values are still delivered before receivers get the closed error, sends fail, and closing again fails.",
  ["schedules", "histories"], "every interleaving of send, receive, try-variants, select and close by any number of coroutines",
  "Tests run a few channel programs under whatever schedule occurs; the guarantee is over all interleavings and queue states.",
  ["runtime/rt_chan.c", "runtime/linkco.c", "runtime/linkco.h", "runtime/runtime.h"],
  [("send/receive/close", "runtime/rt_chan.c"), ("wait queues", "runtime/rt_chan.c: waitq_*"), ("select commit", "runtime/rt_chan.c: rt_chan_select")],
  observe=["values received, errors raised, coroutines resumed"],
  technique="path typestate over channel operations (queue/buffer/lock/wake effects per path)",
  note="All paths of each operation with helpers inlined are checked against the per-path effect obligations of the channel protocol; the interleaving argument is lock-based (all effects happen under the channel lock).")

p("R08", "Every runtime lock taken is released exactly once on every path",
  "No runtime operation returns, suspends its coroutine, or stops for a collection while still holding an internal lock it acquired, and none releases a lock it does not hold, on any success or failure path. Locks that nest are always taken in one global order.",
  ["schedules", "inputs", "fault_sequences"], "every path of every runtime function that takes an internal lock",
  "A leaked lock on a rare error path or an inverted order deadlocks only under a specific schedule.",
  ["runtime", "utils/mutex.c", "utils/mutex.h"],
  [("lock primitives", "utils/mutex.h, pthread/uv mutexes"), ("hand-off on suspension", "runtime/processor.h: co_yield_waiting"), ("lock users", "runtime/*.c, runtime/nutils/*")],
  observe=["no runtime call hangs because of an internal lock"],
  technique="path-sensitive lockset typestate + interprocedural lock-order graph",
  note="Locks are identified by address expression; aliasing through distinct expressions is not tracked.")

p("R09", "A coroutine waiting for I/O is always resumed, once, with the real outcome",
  "Every blocking I/O operation (files, TCP, TLS, UDP, HTTP, DNS, processes, timers) resumes the calling coroutine exactly once whatever the outcome, including immediate failure to start, timeout, peer close and cancellation. A failure reported by the system is raised to the caller and success is never reported for a failed operation.",
  ["fault_sequences", "schedules", "inputs"], "every outcome of every system/event-loop call an operation makes, synchronous or in its completion callback",
  "Tests only see the outcomes the sandbox's kernel produces; failing at each step of each operation cannot be arranged.",
  ["runtime/nutils/tcp.h", "runtime/nutils/tls.h", "runtime/nutils/udp.h", "runtime/nutils/http.c", "runtime/nutils/dns.h", "runtime/nutils/fs.c", "runtime/nutils/process.c", "runtime/nutils/coroutine.c", "runtime/processor.c"],
  [("operation start on the event loop", "uv_async_* functions passed to the loop"), ("completion callbacks", "on_*_cb functions"), ("result propagation", "rt_uv_* wrappers")],
  observe=["the blocked call returns or raises; never hangs; error text"],
  technique="path typestate: each start/callback path arms exactly one completion or resumes once; failure statuses must flow to a raise",
  note="The event loop is assumed to invoke an accepted callback once; paths are enumerated over all return values of event-loop calls.")

p("R10", "Mutual exclusion and wait primitives keep their contract",
  "At most one coroutine holds a mutex at any time, try-lock never blocks and reports truthfully, and each unlock hands over to or wakes a waiter when one exists. Misuse (unlocking an unlocked mutex) is reported rather than corrupting state.",
  ["schedules", "histories"], "every interleaving of lock, try-lock, unlock by any number of coroutines",
  "Exclusion violations and lost wake-ups require particular interleavings of atomic steps.",
  ["runtime/rt_mutex.c", "runtime/rt_mutex.h", "utils/mutex.c", "std/co/mutex.n"],
  [("mutex state word transitions", "runtime/rt_mutex.c")], state=[("mutex state word", "locked/woken/starving bits and waiter count", "runtime/rt_mutex.h")],
  observe=["critical sections never overlap; blocked coroutines eventually continue"],
  technique="transition extraction: every compare-exchange/atomic update on the state word is checked against the allowed transition relation",
  note="Decides per-step transitions of the state word on all paths; relies on the atomicity of the primitives.")

p("R11", "Maps and sets behave as finite maps over every history of operations",
  "After any sequence of insert, overwrite, delete, lookup, containment test, iteration and growth, a map or set holds exactly the keys inserted and not since deleted, each with its latest value, and its length is their count. Looking up an absent key raises instead of returning another key's data, and iteration visits each live entry once.",
  ["histories", "inputs"], "every operation sequence, key type and hash collision pattern",
  "Tombstone, collision and rehash interactions depend on hash values and long histories that example tests do not reach.",
  ["runtime/nutils/map.c", "runtime/nutils/set.c", "runtime/nutils/hash.h", "runtime/nutils/fn.c"],
  [("slot search", "runtime/nutils/hash.h: find_hash_slot"), ("insert/delete/grow", "runtime/nutils/map.c, runtime/nutils/set.c"), ("iteration", "runtime/nutils/nutils.c: iterator_*")],
  state=[("hash slot word", "index plus set/deleted flag bits", "runtime/nutils/hash.h")],
  observe=["m[k], m.del(k), m.contains(k), len, for k,v in m"],
  technique="representation-invariant effect analysis on every path (slot flags, length, key/value arrays)",
  note="Each operation's paths must have the slot-flag and length effects the invariant requires.")

p("R12", "A runnable coroutine is never lost and each runs on one thread at a time",
  "Every coroutine that becomes ready is run eventually and is queued at most once per wake-up; a coroutine is executed by a single thread at a time, its completion is observed exactly once by whoever awaits it, and its result or error is delivered to the awaiter. Program exit waits for the main coroutine and reports uncaught errors with a non-zero status.",
  ["schedules", "histories"], "every interleaving of spawn, ready, yield, await, preempt and exit across threads",
  "Lost or duplicated wake-ups depend on the instruction-level schedule.",
  ["runtime/processor.c", "runtime/processor.h", "runtime/nutils/coroutine.c", "runtime/sysmon.c", "runtime/rt_linked.h"],
  [("ready/yield", "runtime/processor.h: co_ready, co_yield_*"), ("run loop", "runtime/processor.c: processor_run, coroutine_resume"), ("await", "runtime/processor.c/nutils/coroutine.c: rt_coroutine_await")],
  observe=["all spawned coroutines complete, awaits return the produced value or error"],
  technique="path typestate on coroutine status and run-queue effects; set-before-publish ordering",
  note="Per-path obligations on status/queue effects in all scheduler functions.")

p("R13", "Deferred blocks run exactly once on every way out of their scope",
  "Whatever way a scope is left (falling off its end, return, break, continue, a raised error caught outside, or an error leaving the function), the deferred blocks registered in it and in every scope being left run once each, in reverse order, after the returned value is computed and before control continues elsewhere. Deferred blocks not yet reached do not run.",
  ["programs", "inputs"], "every nesting of scopes, loops, catch blocks and exits",
  "The number of nestings is unbounded; tests contain a few combinations.",
  ["src/linear.c", "src/semantic/analyzer.c"],
  [("unwinding before each jump", "src/linear.c: linear_unwind_*, linear_break, linear_continue, linear_return, linear_throw, linear_bal_error"), ("scope bookkeeping", "src/linear.c: linear_body")],
  observe=["order and number of side effects of deferred blocks"],
  technique="emission-order typestate in the code generator: each scope-leaving jump is preceded by its unwind on all paths",
  note="All paths of all lowering functions that emit a jump out of a scope.")

p("R14", "Every language construct is handled by every compiler pass that meets it",
  "Every statement, expression, type and operator the parser can produce is handled by name resolution, type checking, generic instantiation, lowering, optimisation and code emission for each target, or is rejected with a diagnostic; no construct is silently dropped, copied shallowly or left with parts unvisited. In particular every sub-expression of a construct is resolved, checked and copied.",
  ["programs", "configurations"], "every combination of construct, nesting context and target",
  "Tests cover common constructs on one target; a construct forgotten in one pass shows only in programs that use that combination.",
  ["src/ast.c", "src/ast.h", "src/semantic/analyzer.c", "src/semantic/infer.c", "src/semantic/generics.c", "src/semantic/global_eval.c", "src/linear.c", "src/native", "src/lower"],
  [("per-pass dispatch tables", "analyzer_stmt/expr, infer_stmt/expr, ast copy, linear expr/stmt tables, native tables")],
  observe=["program accepted and compiled to code with the construct's effect, or diagnosed"],
  technique="exhaustiveness analysis: dispatch tables/switches against the enumerators produced upstream; child-field visit coverage per AST struct",
  note="Enumerators and AST struct fields come from debug info; a pass must reach every child field.")

p("R15", "Operators keep their meaning and signedness on every target",
  "For every operand type and target, arithmetic, bitwise, shift, comparison and conversion operators compute the language-defined result: signed and unsigned division, remainder, right shift, comparison and widening use the matching machine operation and width, and comparison outcomes are not swapped or inverted. Conversions between integer widths and between integers and floats keep the sign of the source type.",
  ["programs", "inputs", "configurations"], "every operator x operand kind x operand placement x target (amd64, arm64, riscv64)",
  "Only amd64 is executed by the tests, and boundary operands (negative, high bit set, narrow types) are rarely used.",
  ["src/native/amd64.c", "src/native/arm64.c", "src/native/riscv64.c", "src/lower", "src/linear.c", "src/binary"],
  [("operator to intermediate opcode", "src/linear.c: ast_op_convert, linear_binary"), ("opcode to machine instruction", "src/native/*.c tables")],
  observe=["value of an expression computed by compiled code"],
  technique="table and path extraction: abstract operator -> emitted instruction relation compared with the language specification",
  note="Decides the selection relation on all paths of the emitters for constant opcode/kind arguments; encoding bytes are checked only through the instruction tables' mnemonic entries.")

p("R16", "Malformed object files, archives and libraries cannot crash the linker",
  "For every byte content of an input object, archive, library stub or script the linker either links it or reports an error: it never reads or writes outside the file image or its own buffers because of an offset, size, count or index taken from the input, and size arithmetic on such values is checked for overflow.",
  ["inputs"], "every input byte string for every supported object, archive and library format",
  "Fixture files are well formed apart from a few hand-made cases; the input space is unbounded.",
  ["src/ld/ld_elf_input.c", "src/ld/ld_input.c", "src/ld/ld_elf_archive.c", "src/ld/ld_coff_input.c", "src/ld/ld_coff_reader.c", "src/ld/ld_tapi.c", "src/ld/ld_elf.c"],
  [("range checks", "src/ld: ld_range_ok and format-specific bounds tests")],
  observe=["linker exit status and diagnostics on malformed input"],
  technique="taint + guard-dominance dataflow from input loads to address arithmetic, copies and allocations",
  note="Every use of an input-derived value as offset, index or length must be guarded on all paths.")

p("R17", "A failed step never ends in a reported success",
  "If reading a source or input, writing or closing an output, allocating, assembling or linking fails at any step, the compiler ends with a diagnostic and a non-zero exit status, and does not leave a truncated file under the requested output name as if it were complete. Every internal failure result is propagated to the final status.",
  ["fault_sequences", "inputs"], "every failing system call or internal step during a build or link",
  "Faults such as short writes, failed close or allocation failure are not injected by the tests.",
  ["src/ld", "src/build/build.c", "src/build/archive.c", "src/binary", "utils/helper.h", "utils/helper.c", "main.c"],
  [("status propagation", "src/ld: functions returning a status"), ("output writing", "src/ld/ld.c: output writer; src/build/build.c"), ("process exit", "main.c")],
  observe=["exit status, diagnostics, presence and completeness of the output file"],
  technique="unchecked-result / status-propagation dataflow over all status-returning calls",
  note="All calls to status-returning functions in the linker, object writer and build driver.")

p("R18", "Dynamic type tests and conversions never reinterpret a value",
  "Extracting a value from a dynamically typed, union, interface or nullable value succeeds only if the stored type is exactly the requested one and raises a catchable error otherwise, and a type test answers for the stored type. Boxing records the type of the value stored, so a round trip returns the same value.",
  ["programs", "inputs", "histories"], "every source type, requested type and stored value",
  "Each pair of types is a separate case; tests cover a few.",
  ["runtime/nutils/nutils.c", "src/linear.c"],
  [("runtime assertions", "runtime/nutils/nutils.c: union/any/interface assert and is"), ("lowering of as/is", "src/linear.c: linear_as_expr, linear_is_expr")],
  observe=["result or error of x as T and x is T"],
  technique="path analysis: payload use dominated by equality of stored and requested type; boxing stores tag and payload together",
  note="All paths of the runtime conversions and their lowering.")

p("R19", "Shared scheduler and heap state is only touched under its lock",
  "Run queues, the global heap structures, the constant pool, signal and coroutine bookkeeping are read-modify-written by one thread at a time: each shared structure is always protected by the same lock or by being owned by one thread. No operation's effect is lost because two threads update the same structure concurrently.",
  ["schedules"], "every pair of concurrently executing runtime operations",
  "A data race shows only under rare schedules and its symptom is far from its cause.",
  ["runtime/allocator.c", "runtime/collector.c", "runtime/processor.c", "runtime/rt_linked.h", "runtime/linkco.h", "runtime/nutils/string.c", "runtime/nutils/rt_signal.c", "runtime/fixalloc.c"],
  [("guarded structures", "lock fields/globals next to the data they protect")],
  observe=["no corruption or lost update under concurrency"],
  technique="guarded-by lockset analysis over all access paths",
  note="Each guarded structure's mutating accesses must hold its lock on every path, following locks into callers.")

p("R20", "Relocations are resolved exactly or rejected, never truncated silently",
  "For every relocation record and final address layout the linker writes the exact relocated value into the field, or reports an error when the value does not fit the field's range or alignment, the kind is unknown, or the symbol is undefined. No relocation is skipped silently.",
  ["inputs", "configurations"], "every relocation kind of each target and every displacement",
  "Displacements near the range limits need gigabyte layouts; most kinds never occur in the fixtures.",
  ["src/ld/ld_elf_reloc.c", "src/ld/ld_elf.c", "src/ld/ld_macho.c", "src/ld/ld_coff.c", "src/binary/elf/linker.c"],
  [("relocation application", "src/ld/ld_elf_reloc.c and per-format appliers")],
  observe=["bytes of the linked output or the diagnostic"],
  technique="per-kind path analysis: narrowing store dominated by a range test of matching width, default rejects",
  note="Every case of every relocation switch on all three ELF targets.")

p("R21", "Types are equal only if all their parts are equal",
  "Two types are treated as the same, assignable or interchangeable at run time only if they have the same kind and every component (element, key, value, parameter, result, length, field and fallibility) agrees, and distinct types never share a run-time identity by omission of a component. An ill-typed assignment, argument, return or condition is always diagnosed.",
  ["programs"], "every pair of types and every typed position",
  "The space of type pairs is infinite; tests compile a few ill-typed programs.",
  ["src/semantic/infer.c", "src/semantic/interface.c", "src/types.h", "utils/type.c", "src/rtype.h"],
  [("structural comparison", "src/semantic/infer.c: type_compare"), ("run-time identity", "type hash/format functions"), ("typed positions", "src/semantic/infer.c: infer_right_expr")],
  observe=["accepted or rejected programs; dynamic type test results"],
  technique="component-coverage path analysis of comparison and identity functions against type struct definitions",
  note="Every accepting path must have compared every component of the kind.")

p("R22", "Function frames and calls follow one convention on both sides",
  "For every signature and target, caller and callee place each argument and result in the same register or stack slot, callee-saved registers and the stack pointer are restored on every return, and stack arguments do not overlap. Spilled values are reloaded from the slot and with the width they were stored.",
  ["programs", "configurations"], "every parameter list, result type, register pressure and target",
  "Tests execute amd64 only and a few signatures.",
  ["src/lower/amd64_abi.c", "src/lower/arm64_abi.c", "src/lower/riscv64_abi.c", "src/native/amd64.c", "src/native/arm64.c", "src/native/riscv64.c", "src/register"],
  [("argument classification", "src/lower/*_abi.c"), ("prologue/epilogue", "src/native/*.c: fn_begin, return"), ("register sets", "src/register/arch/*.c")],
  observe=["argument values seen by callee, caller state after return"],
  technique="symmetry analysis between caller- and callee-side lowering and between prologue and epilogue emitters",
  note="Compares the extracted placement functions and save/restore sets.")

p("R23", "Compiler-written metadata is read back by the runtime field for field",
  "Every table the compiler embeds for the runtime (types, functions, symbols, call sites, stack maps) is written with the record layout, order, count and index encoding with which the runtime reads it, for any program. Offsets into variable-length data stay within that data.",
  ["programs"], "every program's set of types, functions, globals and call sites",
  "A mismatch in a rarely used field only shows on the operation that uses it.",
  ["src/build/build.c", "src/rtype.h", "utils/custom_links.h", "utils/type.h", "runtime/runtime.c", "runtime/collector.c"],
  [("serialisation", "src/build/build.c: collect_*, *_serialize"), ("deserialisation", "runtime/runtime.c: *_deserialize")],
  observe=["reflection, stack traces, collection roots, dynamic casts in compiled programs"],
  technique="writer/reader field-access agreement over typed IR of both programs",
  note="Same struct layout on both sides; every record field written by the compiler before emission; same symbol names and count/offset encoding.")

p("R24", "String and byte-content operations use the full content, not a C string",
  "String equality and ordering compare the full byte content and length and form one consistent total order (exactly one of less, equal, greater holds, and the six operators agree); creating, converting or interning a string yields exactly the given bytes, including zero bytes. Native calls that need a terminated string always receive one.",
  ["inputs"], "every pair of byte strings including empty, prefix-related and zero-containing ones",
  "Tests compare a few ASCII literals.",
  ["runtime/nutils/string.c", "runtime/nutils/string.h", "runtime/nutils/hash.h", "runtime/nutils/nutils.c"],
  [("comparison", "runtime/nutils/string.c: string_ee/ne/lt/le/gt/ge"), ("construction and pooling", "runtime/nutils/string.c: string_new, string_new_with_pool, string_concat")],
  observe=["results of ==, !=, <, <=, >, >= and contents of new strings"],
  technique="abstract truth-table extraction over (content order x length order) on every path; terminator and copy-size path rules",
  note="The nine abstract cases of prefix order and length order are decided for each operator on every path.")

if __name__ == "__main__":
    done = {f[:-3] for f in os.listdir(V + "/checks") if f.endswith(".py")}
    with open(V + "/properties.jsonl", "w") as fh:
        for q in P:
            o = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["q"]}, "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                             "state": [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]],
                             "observe_at": list(q["observe"]), "hook_needed": None}}
            fh.write(json.dumps(o, ensure_ascii=False) + "\n")
    NOT_BUILT = {"R22": "no check built. Static analysis could decide it (compare register and slot assignment of the caller and callee lowering, and prologue with epilogue), but the assignment is carried by loop counters in three ABI files and a comparison that also stays quiet on refactorings was not finished."}
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks read the unmodified sources", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Static analysis only: /repo's current sources are compiled to LLVM bitcode (never executed), facts are extracted and rules decided over them; see DESIGN.md."}
    for q in P:
        if q["na"]:
            m["not_applicable"].append({"property": q["id"], "reason": q["na"]})
        elif q["id"] in done:
            m["checks"].append({"property": q["id"], "quick_cmd": "python3 checks/%s.py" % q["id"], "thorough_cmd": "python3 checks/%s.py" % q["id"],
                                "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "other", "level_note": q["note"]})
        else:
            m["not_applicable"].append({"property": q["id"], "reason": NOT_BUILT.get(q["id"], "no check built yet")})
    with open(V + "/MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
