#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the notes below, known-findings.txt and the evidence of the last run (VERIF_EVIDENCE)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.environ.get("VERIF_EVIDENCE", V + "/evidence")
PROPS = [json.loads(l) for l in open(V + "/properties.jsonl")]
HEAD = """# Static verification of nature

Every check decides its property from the *current* sources of /repo without running them. Nothing of /repo is executed,
neither concretely nor symbolically, and no solver is involved.

## Machinery

| part | what it does |
|---|---|
| `setup.sh`, `tool/nfacts.cpp` | builds `build/nfacts`, a fact extractor linked against LLVM 18 |
| `lib/extract.py` | compiles each translation unit of the runtime (`runtime/`, `utils/`) or the compiler (`src/`, `utils/`) with clang to bitcode that is never linked or run, and dumps facts: CFG, SSA values, struct/field access paths, types and layouts from debug info, initialisers, enums. Cached by content hash of the unit, of all headers and of the extractor |
| `shim/`, `shim_cc/` | headers that let clang accept what the gcc/musl build accepts (atomic operations on plain objects) |
| `lib/ir.py` | program model; static expressions over access paths; a path walker with callee inlining, correlated-branch pruning by recorded facts and interval pruning on linear forms; bounded loop unrolling |
| `lib/util.py`, `lib/lin.py`, `lib/bounds.py`, `lib/bits.py`, `lib/kinds.py` | path facts: tests established, linear inequalities with a small entailment test, bounds of values at an instruction, bit-by-bit abstract words, admitted type kinds |
| `lib/shape.py`, `lib/queues.py` | linked structures over a symbolic heap of named cells |
| `lib/lir.py`, `lib/emit.py` | the intermediate and machine code a lowering function emits, read off each path |
| `lib/visit.py`, `lib/natdecl.py`, `lib/strings.py`, `lib/failflow.py` | must-visit analysis of AST passes; `#linkid` declarations of std/; string order cases; failure flow |
| `lib/lockset.py` | context-sensitive must-held locksets |
| `lib/harness.py` | rule bookkeeping, evidence, known findings, exit codes |

A rule is a predicate over *what a path does* (calls, stores, tests, returned value, in terms of access paths), not over the
text: helpers are inlined (every function not listed in `lib/functions.txt`, the names present when the rules were
written, is judged as part of its callers), so extracting one, reordering independent statements or rewriting a loop leaves the events
unchanged. Each rule states a minimum number of instances. Fewer instances, or a vanished anchor, is an analysis error
(exit 2), neither a pass nor a violation. A function that is still defined but no longer called from anywhere is a violation
(rule `reached`). Loops are entered one to four times per activation, depending on the rule, and recursion is cut by an
inlining depth, so a fault that needs more rounds of a loop is outside the path rules. A violation names file, line, function, the rule and the path.

`python3 checks/RNN.py` runs one check; `VERIF_TRACE=5` prints the paths. Every check takes under 20 s with warm facts;
the facts of a translation unit are extracted once and shared through the cache.

## Properties

"""
# how decided / oracle / bounds / why beyond tests
N = {
"R01": ("Path walk of every vec/array primitive with linear bounds facts; path walk of the lowering functions with the emitted operations recorded.",
        "The half-open ranges [0,length) and [start,end), and length <= capacity as an inductive invariant.",
        "Element sizes symbolic. Size arithmetic in std/*.n is not analysed.",
        "Tests use few indexes; wrap-around, narrow negative and capacity-range indexes need every value."),
"R02": ("Typestate `raised` over every native function; emission order (call, test, jump) over the compiler's lowering; declarations of std/*.n against which natives can raise (call-graph closure).",
        "An error is pending exactly between raise and take; nothing but clean-up happens in between.",
        "Natives raising through function pointers of third-party code are not followed.",
        "Each fallible call times each failure would need its own test."),
"R03": ("All `#linkid` declarations of std/*.n are parsed and compared with the prototypes in the bitcode; implicit runtime calls are found as emitted symbols with operand widths.",
        "The C prototype and struct layout in debug info.", "Third-party prototypes only where their headers are in the tree.",
        "A wrong width shows only for values beyond it."),
"R04": ("Field types from debug info against pointer maps built by the runtime and the compiler; allocation sites against their map; roots by reachability from the coroutine record.",
        "A word is a reference exactly if its declared type is a pointer into collected memory.", "Unions count as references if any member does.",
        "A missing bit is harmless until a collection hits the right moment."),
"R05": ("Path walk of the barrier primitives; every store of a reference into shared objects must be the barrier or to a fresh object; emission analysis of assignments.",
        "Hybrid barrier: old value shaded, new value shaded unless the stack is scanned.", "memmove of aggregates in vec append/copy and channels is outside the slot rule.",
        "Only a store racing with marking shows the loss."),
"R06": ("Phase automaton over all paths of the collector (26 thousand obligations from path x event), plus root/mark/sweep completeness.",
        "idle -> stop -> on -> restart -> mark -> stop -> sweep -> restart.", "Marking work lists are abstract queues.",
        "Interleavings of processors and collector are not enumerable by tests."),
"R07": ("Path walk of send/receive/select/close over abstract queues, with the lock typestate.", "A FIFO channel with rendezvous and a one-shot select flag.",
        "Queues abstracted to small shapes; select cases followed for a bounded number of cases.", "Each interleaving of senders, receivers and close."),
"R08": ("Lock typestate on every path of every runtime function; global acquisition order graph.", "Each taken lock released once; acyclic order.",
        "Locks named by access path; aliasing through two paths to one lock is not seen.", "Error paths and lock nesting need schedules and faults."),
"R09": ("Completion typestate: which callback is armed, which path resumes, which status reaches a raise.", "Exactly one resume per suspension, with the failure raised.",
        "libuv is trusted to call an accepted callback once.", "Every failing status of every event-loop call."),
"R10": ("Path walk of the mutex/semaphore code with compare-and-swap success bits; bit-level composition of the state word.", "Go-style mutex state machine.",
        "Retry loops followed for a bounded number of rounds; fairness is not decided.", "Contention schedules."),
"R11": ("Path walk of hash table operations over an abstract table (slot live/deleted/empty, entry index).", "A finite map with a dense entry array.",
        "The probe and rehash loops are followed for a bounded number of steps.", "Deletion/collision histories."),
"R12": ("Typestate of a coroutine (bound, runnable, running, waiting, dead) over scheduler paths.", "One owner at a time, one queue entry per wake-up.",
        "Memory ordering below mutex/atomic level is not modelled.", "Schedules."),
"R13": ("Path walk of the unwinding code and of every jump lowering, with the scope list abstract.", "LIFO, once per way out.", "Nesting followed to a bounded depth.",
        "Every nesting of loops, catch, return and defer."),
"R14": ("Must-visit dataflow with the dispatch pinned to one construct, for each construct and pass; copy completeness.", "The AST records declared in src/ast.h.",
        "Optional parts are may-visit; polarity of branches and scope begin/end calls are not decided here.", "Every construct inside every other, generic or not."),
"R15": ("Tables and switch results from operator and type kinds to LIR and to machine mnemonics for the three targets.", "Language operator semantics and ISA manuals, as tables in the check.",
        "NaN operands; riscv unsigned <=,> with immediate -1; arm64/riscv64 conversion widths; riscv float branches; unary minus of immediates.", "Other targets never run in the tests."),
"R16": ("Bounds dataflow over every read of input bytes in the linker: offset + size <= file size on all paths, with checked arithmetic.", "Reads stay in the mapped input.",
        "About 33 accesses are reported UNDECIDED in the notes and not judged; append slots (index == count) are not judged.", "Arbitrary bytes as input."),
"R17": ("Failure flow: each fallible call assumed failed, no continuation may return success; output renamed only after all writes.", "Status conventions of src/ld and of the C library.",
        "assertf/exit count as failure reports.", "Disk-full, permission and short-write faults at every step."),
"R18": ("Path walk of test/extract/box operations; emission analysis of `as`, `is` and match.", "Recorded descriptor equals the requested one.", "Narrowing one union to another is checked statically only.",
        "Every pair of types."),
"R19": ("Guarded-by table; must-held locksets are propagated from every entry point through calls, once per calling context; lock-free counters must be changed by one atomic instruction.",
        "The lock declared next to the data; start-up and stopped-world code is exempt by name.",
        "Locks are named by struct member, so two instances of one type are not told apart. Unlocked reads that are only hints are allowed for the places marked `w`.",
        "Lost updates need schedules."),
"R20": ("For each target and relocation number: path walk of the resolver with the kind pinned; the written bits, the value and the range/alignment guards are compared with a table.",
        "psABI relocation formulas and field ranges.", "riscv ADD/SUB/SET6/SUB6/ULEB/ALIGN and the Mach-O TLVP/page-offset instruction forms are not judged.", "Displacements near the limits need gigabyte layouts."),
"R21": ("Path walk of the type comparison and of the identity string with kinds pinned; each accepting path must have compared each component.", "Components declared in the type structs.",
        "Generic constraint matching is outside.", "All pairs of types."),
"R23": ("Writer and reader field by field: size, order, count, index encoding, and offset bounds.", "One record layout on both sides.", "Two records unrolled; DWARF and st_size of caller symbols not judged.",
        "Tables of unusual programs."),
"R24": ("C-string taint over string values; path enumeration of the comparison operators; copy tiling.", "Content is (length, bytes).", "Third-party parsers receiving C strings are listed as assumptions.", "Zero bytes at every place."),
}
MANIFEST = json.load(open(V + "/MANIFEST.json"))
NA = {n["property"]: "Not decided: " + n["reason"] for n in MANIFEST["not_applicable"]}
o = [HEAD]
for p in PROPS:
    i = p["id"]
    o.append("### %s %s\n\n" % (i, p.get("title", "")))
    if not os.path.exists(V + "/checks/%s.py" % i):
        o.append(NA.get(i, "not decided") + "\n\n")
        continue
    how, oracle, bound, why = N[i]
    ev = json.load(open("%s/%s.json" % (EV, i)))
    o.append("- how: %s\n- oracle: %s\n- bounds: %s\n- why tests cannot settle it: %s\n" % (how, oracle, bound, why))
    rules = ev["coverage"]["rules"]
    o.append("- enumerated when last measured: %d obligations over %d functions, %.0f s\n" % (ev["coverage"]["obligations"], ev["coverage"]["functions_analysed"], ev["wall_s"]))
    for k, r in rules.items():
        o.append("  - `%s` (%s): %s\n" % (k, r["instances"], r["rule"]))
    o.append("\n")
o.append("""## Observed but not judged

- R22 has no check, so nothing below is covered by one. Reading the generated amd64 code showed that on Linux a function under
  register pressure uses r12 to r15 without saving them (`c->callee_saved` stays empty in src/register/linearscan.c). Code
  compiled by nature does not keep values in registers across calls, so only a C caller could notice. No failing program was
  found, and it is neither repaired nor listed as a known finding. If registers were recorded there, the SysV, arm64 and
  riscv64 prologues would place the saves where outgoing stack arguments are written.
- R05: element moves in vec append/copy and in channels use memmove without a barrier. No failing program was found.

""")
o.append("## Planted bugs\n\nAll were written from the property text and the code, build, and are confirmed by their demo.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
RES = json.load(open(V + "/gen/caught.json")) if os.path.exists(V + "/gen/caught.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    b = os.path.basename(os.path.dirname(m))
    o.append("| %s | %s | %s | %s |\n" % (b, d["property"], d["needs"], RES.get(b, d["property"])))
o.append("""
The table is small and biased towards bugs whose effect a short program shows; the checks without a planted bug rest on
the mutants below only. While the checks were built they were also tried on source mutants: generated ones (`gen/mut.py`,
statement deletions and operator changes in a function) and hand-written ones, with this many for each property: R05 23, R06 22,
R10 30, R12 47, R13 26, R14 8, R15 25, R16 26, R17 17, R18 27, R19 80 (mostly one lock or unlock call deleted), R20 11, R21 38,
R23 28. The checks were strengthened on these mutants, so their detection on them says little about unseen bugs.
Some remain unreported. For R19 these are lock deletions in helpers nothing calls, in start-up code, and of `owner_lock` and
`thread_locker`. For the other checks they fall under the bounds given with the property.

## Findings

Repairs are separate `fix:` commits in /repo. `known` entries are printed by the check as KNOWN-FINDING and do not fail it.

""")
for l in open(V + "/known-findings.txt"):
    l = l.strip()
    if l and not l.startswith("#"):
        o.append("- " + l + "\n")
open(V + "/DESIGN.md", "w").write("".join(o))
