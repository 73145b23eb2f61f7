"""R19: shared scheduler and heap state is only touched under its lock."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import *
from util import *
from ir import *
from lockset import *

# place -> (locks of which one must be held, "rw" every access / "w" changes only)
def T(*names):
    return names


LISTL = T("rt_linked_fixalloc_t.locker")
HEAP = T("memory_t.locker")
CENTRAL = T("mcentral_t.locker")
BITS = T("gc_bits_arenas", "gc_bits_arenas_t.locker")
SIG = T("signal_locker")
COAL = T("cp_alloc_locker")
CHAN = T("n_chan_t.lock")
WAIT = T("rt_linkco_list_t.locker")
GUARD = {
    # run queues, coroutine lists and mark work lists
    "rt_linked_fixalloc_t.head": (LISTL, "w"), "rt_linked_fixalloc_t.rear": (LISTL, "w"), "rt_linked_fixalloc_t.count": (LISTL, "w"),
    "rt_linked_node_t.prev": (LISTL, "rw"), "rt_linked_node_t.succ": (LISTL, "w"), "rt_linked_node_t.value": (LISTL, "w"),
    # mutex waiters
    "rt_linkco_list_t.head": (WAIT, "rw"), "rt_linkco_list_t.rear": (WAIT, "rw"), "rt_linkco_list_t.count": (WAIT, "rw"),
    "rt_mutex_t.waiter_count": (WAIT, "w"),
    # heap
    "mcentral_t.partial_list": (CENTRAL, "rw"), "mcentral_t.full_list": (CENTRAL, "rw"),
    "mheap_t.spanalloc": (HEAP, "rw"), "mheap_t.arenas": (HEAP, "w"), "arena_t.spans": (HEAP, "w"), "arena_t.base": (HEAP, "w"),
    "page_alloc_t.chunks": (HEAP, "rw"), "page_alloc_t.summary": (HEAP, "rw"), "page_summary_t.start": (HEAP, "w"), "page_summary_t.max": (HEAP, "w"),
    "page_summary_t.end": (HEAP, "w"), "page_summary_t.full": (HEAP, "w"),
    "allocated_total_bytes": (HEAP, "w"), "remove_total_bytes": (HEAP, "w"),
    "mspan_t.alloc_bits": (HEAP, "w"), "mspan_t.gcmark_bits": (HEAP, "w"),
    "gc_bits_arena_t.next": (BITS, "rw"), "gc_bits_arenas_t.free_list": (BITS, "rw"), "gc_bits_arenas_t.next_list": (BITS, "w"),
    "gc_bits_arenas_t.current_list": (BITS, "rw"), "gc_bits_arenas_t.previous_list": (BITS, "rw"),
    # caches and pools
    "*mspan_t.gcmark_bits": (T("mspan_t.gcmark_locker"), "rw"), "gc_stage": (T("gc_stage_locker"), "w"),
    "global_linkco_cache": (T("global_linkco_locker"), "rw"), "const_str_pool": (T("const_str_pool_locker"), "rw"),
    "coroutine_alloc": (COAL, "rw"), "processor_alloc": (COAL, "rw"), "coroutine_count": (COAL, "rw"), "coroutine_t.id": (COAL, "w"),
    "share_stack_base": (T("share_stack_lock"), "rw"),
    # event loop hand-over
    "global_handle_t.freelist": (T("global_handle_t.freelist_lock"), "rw"),
    "global_handle_t.freelist_count": (T("global_handle_t.freelist_lock"), "rw"),
    "inner_server_t.accept_head": (T("inner_server_t.accept_locker"), "w"),
    # signals, channels, coroutine completion
    "sig_ref": (SIG, "rw"), "signal_mask": (SIG, "rw"), "signal_handlers": (SIG, "rw"), "signal_loop_co": (SIG, "rw"), "signal_recv": (SIG, "w"),
    "n_chan_t.closed": (CHAN, "w"), "n_chan_t.buf_front": (CHAN, "w"), "n_chan_t.buf_rear": (CHAN, "w"),
    "waitq_t.head": (CHAN, "rw"), "waitq_t.rear": (CHAN, "rw"), "coroutine_t.await_co": (T("coroutine_t.dead_locker"), "rw"),
    "main_coroutine_exited": (T("coroutine_t.dead_locker"), "w"),
}
# the queue of requests handed to the event loop: first member of `global`
QUEUE = ("global", T("global_handle_t.async_lock"), "w")

# run before any other thread exists, or on an object no other thread has seen
INIT = {
    "memory_init": "start-up", "sched_init": "start-up", "global_loop_init": "start-up", "gcbits_areas_init": "start-up",
    "register_const_str_pool": "start-up", "init_async_handle_freelist": "start-up", "signal_init": "start-up",
    "rt_linked_fixalloc_init": "a new list", "rt_linked_fixalloc_free": "a list nobody uses any more",
    "fixalloc_init": "a new allocator", "arena_hints_init": "start-up",
}
# run by the collector while every other thread is stopped: the heap lock stands for the stop
STOPPED = {"*mspan_t.gcmark_bits": HEAP, "mcentral_t.partial_list": HEAP, "mcentral_t.full_list": HEAP}
# function below which one place is owned: the collector's stage once entered, a coroutine nobody knows yet
OWNED = {("gc_stage", "runtime_gc"), ("coroutine_t.await_co", "rt_coroutine_new")}
# changed by several threads without a lock: only by an indivisible operation
ATOMIC = ["allocated_bytes", "inner_conn_t.ref_count", "inner_tls_conn_t.ref_count", "gc_bits_arena_t.free_index",
          "global_handle_t.async_handle_count", "rt_mutex_t.state", "rt_mutex_t.sema", "coroutine_t.select_done"]
ALONE = {"sweep_span": "the world is stopped"}

# calls that hand a guarded object to code outside the runtime's own functions
def touched(p, f, i):
    """(place, changes) for what one instruction does to memory"""
    if i.op in ("store", "atomicrmw", "cmpxchg", "load"):
        a = i.ops[1] if i.op == "store" else i.ops[0]
        for n, pl in enumerate(places(static_expr(f, a))):
            yield pl, i.op != "load", n > 0
    elif i.op == "call" and i.callee and i.callee not in LOCK | UNLOCK | TRY and not i.callee.startswith("llvm.dbg") and not i.callee.endswith("_init"):
        for o in i.ops:
            e = strip_all(static_expr(f, o))
            if e[0] in ("g", "fld"):
                pl = place(e)
                if pl in GUARD and i.callee not in ("pthread_mutex_init", "mutex_init"):
                    yield pl, True, False
            elif e[0] == "ld" and i.callee.startswith("bitmap_") and place(e[1]):
                yield "*" + place(e[1]), True, False


def body(c):
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    c.rule("guarded", "on every path from every entry point, the shared place is touched with its lock held", 30)
    c.rule("indivisible", "a counter shared without a lock is changed by one indivisible operation", 5)
    c.rule("released", "an entry point returns with no lock held", 100)
    c.rule("lock-taken", "a lock is not taken again by the thread that holds it", 10)
    seen, found = set(), {}

    def access(f, i, cur, chain):
        for pl, w, outer in touched(p, f, i):
            g = GUARD.get(pl)
            if pl == QUEUE[0] and not outer and i.op in ("store", "load"):
                g = QUEUE[1:]
            if not g or any(n in INIT or (pl, n) in OWNED for n in chain):
                continue
            locks, mode = g
            if mode == "w" and not w:
                continue
            seen.add(pl)
            held = any(l in cur for l in locks) or pl in STOPPED and any(l in cur for l in STOPPED[pl])
            k = (pl, f.name)
            if k not in found or found[k][0] and not held:
                found[k] = (held, i, f, chain, w)
        if i.op == "call" and i.callee in LOCK and i.ops:
            e = static_expr(f, i.ops[0])
            l = place(e)
            if l and strip_all(e)[0] == "g":
                k = ("again", f.name + "|" + l)
                bad = l in cur
                if k not in found or not found[k][0] and bad:
                    found[k] = (bad, i, f, chain, l)

    L = Locks(p, access)
    roots = L.roots()
    for f in roots:
        out = L.run(f, frozenset())
        if f.name not in INIT:
            c.check("released", f.name, not out, "released|%s|%s" % (f.name, ",".join(sorted(out))), f.loc,
                    "%s returns with %s held on every path" % (f.name, ", ".join(sorted(out))))
    for (pl, fn), v in sorted(found.items()):
        c.unit(v[2])
        if pl == "again":
            bad, i, f, chain, l = v
            c.check("lock-taken", fn, not bad, "again|" + fn, i.loc, "%s takes %s while already holding it (%s)" % (f.name, l, " > ".join(chain)))
            continue
        held, i, f, chain, w = v
        locks = GUARD[pl][0] if pl in GUARD else QUEUE[1]
        c.check("guarded", "%s/%s" % (fn, pl), held, "guarded|%s|%s" % (fn, pl), i.loc,
                "%s %s %s without %s (%s)" % (fn, "changes" if w else "reads", pl, locks[0], " > ".join(chain)))
    for pl in list(GUARD) + [QUEUE[0]]:
        if pl not in seen:
            raise AnalysisError("no access to %s was found" % pl)
    indivisible(c, p)
    c.notes.append("%d entry points, %d places" % (len(roots), len(seen)))


def indivisible(c, p):
    seen = set()
    for f in p.unique():
        for i in f.insts():
            a = i.ops[1] if i.op == "store" else i.ops[0] if i.op in ("atomicrmw", "cmpxchg") else None
            if a is None:
                continue
            pl = place(static_expr(f, a))
            if pl not in ATOMIC:
                continue
            seen.add(pl)
            if i.op != "store" or f.name in ALONE or f.name in INIT:
                c.ok("indivisible", "%s/%s" % (f.name, pl))
                continue
            v = static_expr(f, i.ops[0])
            own = any(x[0] == "ld" and place(x[1]) == pl for x in subexprs(v))
            c.check("indivisible", "%s/%s" % (f.name, pl), not own, "indivisible|%s|%s" % (f.name, pl), i.loc,
                    "%s reads %s, computes and stores it back: a concurrent change in between is lost" % (f.name, pl))
    for pl in ATOMIC:
        if pl not in seen:
            c.notes.append("no direct change of %s" % pl)


main("R19", "Context-sensitive must-held lockset analysis from every runtime entry point over a guarded-by table; indivisibility of lock-free counters.", body)
