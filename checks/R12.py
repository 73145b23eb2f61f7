"""R12: coroutine scheduling: status and run-queue effects of every scheduler path."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
import queues

TECH = ("path typestate on coroutine status, run-queue and waker effects over every path of the scheduler functions (LLVM IR, callees of the scheduler inlined); "
        "set-before-publish ordering; lock-coverage of the completion hand-over; small-heap shape analysis of the run queue")

FILES = ("runtime/processor.c", "runtime/processor.h", "runtime/nutils/coroutine.c")
KEEP = {"coroutine_get", "processor_get", "processor_set_status", "coroutine_dump_error", "fn_depend_init", "rti_throw", "rti_co_throw", "co_preempt_yield", "thread_handle_sig", "aco_get_co"}
PUSH = {"rt_linked_fixalloc_push", "rt_linked_fixalloc_push_heap"}


def U(e):
    return unversion(strip_all(e))


def base(addr):
    """the object a field address belongs to"""
    a = strip_casts(addr)
    return U(a[1]) if a[0] == "fld" else None


def is_fld(e, st, f):
    e = strip_casts(e)
    if e == ("g", "global") and f == "async_queue":
        return True  # the first member
    return e[0] == "fld" and e[3] == f and (st is None or e[2] == st)


def loaded(e, f):
    """X if e is a load of field f of X"""
    k = fldname(e)
    return U(k[0]) if k and k[1] == f else None


def deload(e):
    """the address a loaded value comes from"""
    e = strip_casts(e)
    return strip_casts(e[1]) if e[0] == "ld" else ("c", 0)


def stores(q, st, f):
    return [(i, e) for i, e in enumerate(q.ev) if e.k == "store" and is_fld(e.addr, st, f)]


def calls(q, *names):
    return [(i, e) for i, e in enumerate(q.ev) if e.k == "call" and e.name in names]


def pushes(q, f="runnable_list"):
    return [(i, e) for i, e in calls(q, *PUSH) if is_fld(e.args[0], "n_processor_t", f)]


def yields(q):
    return [(i, e) for i, e in calls(q, "acosw") if is_fld(e.args[0], "coroutine_t", "aco")]


def indirect(q):
    return [(i, e) for i, e in enumerate(q.ev) if e.k == "call" and isinstance(e.name, tuple)]


def steady(q, fields, lo=0, hi=None):
    """the path gives one answer for each test of a member only this coroutine changes"""
    seen = {}
    for pr, a, b, e in known(q):
        if const(b) != 0 or pr not in ("eq", "ne") or not lo <= q.index(e) < (hi if hi is not None else len(q.ev)):
            continue
        ad = deload(a)
        if ad[0] == "fld" and ad[3] in fields and seen.setdefault(U(ad), pr) != pr:
            return False
    return True


class X:
    def __init__(s, p):
        s.p = p

    def paths(s, f, keep=(), loops=1, vn=False, extra=(), **kw):
        inl = lambda g: (g.file in FILES or g.name in extra) and g.name not in KEEP and g.name not in keep
        return list(Walker(s.p, vn=vn, inline=inl, loops=loops, **kw).paths(f))


def body(c):
    c.rule("publish", "a coroutine is put on a run queue only marked runnable, on the processor it is bound to, once per wake-up, and is not touched afterwards", 8)
    c.rule("yield", "giving up the processor records how to release the waiter's lock and the waiting state before the one context switch", 6)
    c.rule("resume", "a coroutine is resumed on the processor that took it, bound to it beforehand; the pending release runs exactly once after the switch", 6)
    c.rule("loop", "the run loop resumes every coroutine it takes, exactly once, on its own processor, and leaves only when the main coroutine has ended", 6)
    c.rule("exit", "a finished coroutine delivers its error, wakes its awaiter or reports the error with a failure status, and is marked dead under its lock", 10)
    c.rule("await", "an awaiter either sees the coroutine dead or registers before releasing the lock, then waits", 4)
    c.rule("spawn", "a new coroutine is fully initialised, entered into the list of all coroutines and one run queue of the same processor, whose thread is started", 12)
    c.rule("wake", "the thread of a processor is created by exactly one of the concurrent callers", 2)
    c.rule("async", "work handed to the event loop is published after the coroutine has switched away, run exactly once and its handle released afterwards", 10)
    c.rule("loopown", "the event loop is run by its owner only and the ownership is given back", 4)
    c.rule("result", "the value returned by a coroutine is copied completely into its future", 1)
    c.rule("reclaim", "only dead coroutines are reclaimed, after being taken off the list of all coroutines", 2)
    c.rule("main", "the program starts its main function as the main coroutine and runs the scheduler until it ends", 2)
    c.rule("queue", "run-queue operations keep exactly the expected coroutines in order, under the queue's lock", 20)
    c.rule("library", "awaiting in the language waits for the coroutine, then raises its error, else yields its result", 3)
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    x = X(p)
    c.section(layout, c, p)
    for s in (publish, yielding, resume, loop, exiting, awaiting, spawn, wake, asyncq, loopown, result, reclaim, mainco):
        c.section(s, c, p, x)
    c.section(queues.runq, c, "queue", p)
    c.section(library, c)


def ST(p, n):
    return p.enum("CO_STATUS_" + n)


def status_writes(q, co, lo, hi):
    return [(i, e) for i, e in stores(q, "coroutine_t", "status") if lo <= i < hi and base(e.addr) == co]


def publish(c, p, x):
    """every push on a run queue in the whole runtime"""
    R = ST(p, "RUNNABLE")
    todo = []
    for f in p.unique():
        if not f.file.startswith("runtime/") or f.name.startswith("rt_linked"):
            continue
        ss = [i for i in f.calls() if i.callee in PUSH]
        if any(is_fld(strip_casts(static_expr(f, i.ops[0])), "n_processor_t", "runnable_list") for i in ss):
            todo.append(f)
    c.need(len(todo) >= 5, "fewer than 5 functions queue coroutines")
    for f in todo:
        c.unit(f.name)
        n = 0
        # where the pushed objects come from arguments, the callers vouch for them (checked below)
        for q in x.paths(f, keep={"co_yield_runnable", "co_yield_waiting", "rt_coroutine_new"} - {f.name}):
            ps = pushes(q)
            for j, (i, e) in enumerate(ps):
                if e.depth and f.name != e.ins.fn.name:
                    continue
                n += 1
                co = U(e.args[1])
                lst = base(e.args[0])
                prev = [w for w in stores(q, "coroutine_t", "status") if w[0] < i and base(w[1].addr) == co]
                st = const(prev[-1][1].val) if prev else None
                fresh = co[0] == "call" and co[1] == "rt_coroutine_new"
                vouched = any(pr == "eq" and loaded(a, "status") == co and const(b) == R for pr, a, b, _ in known(q, i))
                c.check("publish", f.name, st == R or (not prev and (fresh or vouched)), "status", e.loc,
                        "the coroutine is queued %s: the scheduler refuses to run it" % ("with status %s" % st if prev else "without being marked runnable"), q.trace())
                own = lst[0] == "ld" and lst == ("ld", ("fld", co, "coroutine_t", "p"), 0)
                cur = co[0] == "call" and co[1] == "coroutine_get" and lst[0] == "call" and lst[1] == "processor_get"
                pair = co[0] == "a" and lst[0] == "a"
                c.check("publish", f.name, own or cur or pair or fresh or f.name == "rt_coroutine_dispatch", "owner", e.loc,
                        "the coroutine is queued on %s instead of the processor it is bound to: another thread would run it on a foreign stack" % show(lst), q.trace())
                ys = [k for k, _ in yields(q)] + [k for k, z in calls(q, "co_yield_runnable", "co_yield_waiting")]
                for i2, e2 in ps[j + 1:]:
                    if U(e2.args[1]) == co and not any(i < k < i2 for k in ys) and not fresh:
                        c.bad("publish", "twice:%s" % f.name, e2.loc, "the coroutine is queued twice for one wake-up in %s" % f.name, q.trace())
                nxt = min([k for k in ys if k > i] or [len(q.ev)])
                late = [w for w in stores(q, "coroutine_t", "status") if i < w[0] < nxt and base(w[1].addr) == co and not fresh]
                c.check("publish", f.name, not late, "late", e.loc, "the status of the coroutine is changed after it was queued: the thread that took it sees the wrong state", q.trace())
        c.need(n >= 1, "%s: no path queues a coroutine" % f.name)
    # a function that takes the pair (processor, coroutine) gets a coroutine and its own processor
    k = 0
    for f in p.unique():
        for i in f.calls():
            if i.callee != "co_yield_runnable":
                continue
            P, C = U(static_expr(f, i.ops[0])), U(static_expr(f, i.ops[1]))
            ok = P == ("ld", ("fld", C, "coroutine_t", "p"), 0) or C == ("ld", ("fld", P, "n_processor_t", "coroutine"), 0) \
                or (P[0] == "call" and P[1] == "processor_get" and C[0] == "call" and C[1] == "coroutine_get")
            k += 1
            c.check("publish", f.name, ok, "pair", i.loc, "yields %s on processor %s: not the running coroutine on its own processor" % (show(C), show(P)))
    c.need(k >= 2, "no caller of co_yield_runnable")


def yielding(c, p, x):
    R, W, D = ST(p, "RUNNABLE"), ST(p, "WAITING"), ST(p, "DEAD")
    # the primitive switches once, away from the coroutine given to it
    for fn, ci in (("_co_yield", 1), ("co_yield_runnable", 1), ("co_yield_waiting", 0)):
        f = p.need(fn)
        c.unit(fn)
        n = 0
        for q in x.paths(f):
            if q.dead:
                continue
            n += 1
            ys = yields(q)
            ok = len(ys) == 1 and base(ys[0][1].args[0]) == ("a", ci)
            c.check("yield", fn, ok, "switch", q.end_loc(), "%d context switches away from the coroutine" % len(ys), q.trace())
            if not ok:
                continue
            y = ys[0][0]
            to = U(ys[0][1].args[1])
            c.check("yield", fn, loaded(ys[0][1].args[1], "main_co") is not None, "target", ys[0][1].loc, "switches to %s instead of the scheduler of its thread" % show(to), q.trace())
            if fn == "co_yield_runnable":
                ps = [i for i, e in pushes(q) if U(e.args[1]) == ("a", 1) and base(e.args[0]) == ("a", 0)]
                c.check("yield", fn, len(ps) == 1 and ps[0] < y, "requeue", q.end_loc(), "a yielding coroutine is put on its run queue %d times before the switch" % len([i for i in ps if i < y]), q.trace())
            if fn == "co_yield_waiting":
                c.check("yield", fn, not pushes(q), "requeue", q.end_loc(), "a waiting coroutine puts itself on the run queue", q.trace())
                st = status_writes(q, ("a", 0), 0, y)
                c.check("yield", fn, bool(st) and const(st[-1][1].val) == W, "status", q.end_loc(), "the coroutine switches away without being marked waiting", q.trace())
                for fld, arg in (("wait_unlock_fn", 1), ("wait_lock", 2)):
                    s = [e for i, e in stores(q, "coroutine_t", fld) if i < y and base(e.addr) == ("a", 0)]
                    c.check("yield", fn, bool(s) and strip_casts(s[-1].val) == ("a", arg), fld, q.end_loc(),
                            "the %s given by the caller is not recorded before the switch: the lock is never released" % fld, q.trace())
            if fn != "_co_yield":
                st = status_writes(q, ("a", ci), y + 1, len(q.ev))
                c.check("yield", fn, bool(st) and const(st[-1][1].val) not in (R, W, D), "back", q.end_loc(), "a coroutine that runs again keeps the state it waited in", q.trace())
        c.need(n >= 1, "%s: no path" % fn)
    f = p.need("co_preempt_yield")
    c.unit("co_preempt_yield")
    inl = lambda g: g.file in FILES and g.name not in KEEP
    n = 0
    for q in Walker(p, inline=inl, loops=1).paths(f):
        if q.dead:
            continue
        n += 1
        ys, ps = yields(q), pushes(q)
        ok = len(ys) == 1 and len(ps) == 1 and ps[0][0] < ys[0][0] and U(ps[0][1].args[1]) == base(ys[0][1].args[0])
        c.check("yield", "co_preempt_yield", ok, "preempt", q.end_loc(), "a preempted coroutine is queued %d times and switches %d times" % (len(ps), len(ys)), q.trace())
    c.need(n >= 1, "co_preempt_yield: no path")
    # the safepoint flag is taken back, otherwise the coroutine never progresses: part of the same path
    f = p.need("co_ready")
    c.unit("co_ready")
    EXIT = p.enum("P_STATUS_EXIT")
    for q in x.paths(f):
        if q.dead:
            continue
        ps = [e for _, e in pushes(q) if U(e.args[1]) == ("a", 0)]
        gone = any(pr == "eq" and loaded(a, "status") == ("ld", ("fld", ("a", 0), "coroutine_t", "p"), 0) and const(b) == EXIT for pr, a, b, _ in known(q))
        c.check("publish", "co_ready", len(ps) == 1 or (gone and not ps), "ready", q.end_loc(), "readying a coroutine queues it %d times" % len(ps), q.trace())


def resume(c, p, x):
    f = p.need("coroutine_resume")
    c.unit(f.name)
    R = ST(p, "RUNNABLE")
    n = 0
    for q in x.paths(f, noreturn=("assertf",)):
        rs = [(i, e) for i, e in calls(q, "aco_resume")]
        if q.dead or not steady(q, ("inited",), 0, rs[0][0] if rs else None):
            continue
        n += 1
        ok = len(rs) == 1 and is_fld(rs[0][1].args[0], "coroutine_t", "aco") and base(rs[0][1].args[0]) == ("a", 1)
        c.check("resume", f.name, ok, "switch", q.end_loc(), "switches to the coroutine %d times" % len(rs), q.trace())
        if not ok:
            continue
        y = rs[0][0]
        for st, fld, obj, val, why in (("n_processor_t", "coroutine", ("a", 0), ("a", 1), "the processor does not know the coroutine it runs"),
                                       ("coroutine_t", "p", ("a", 1), ("a", 0), "the coroutine is not bound to the processor that runs it")):
            s = [e for i, e in stores(q, st, fld) if i < y and base(e.addr) == obj]
            c.check("resume", f.name, bool(s) and strip_casts(s[-1].val) == val, fld, q.end_loc(), why, q.trace())
        t = [e for i, e in calls(q, "uv_key_set") if i < y and strip_casts(e.args[0]) == ("g", "tls_coroutine_key")]
        c.check("resume", f.name, len(t) >= 1 and strip_casts(t[-1].args[1]) == ("a", 1), "tls", q.end_loc(), "the thread's current coroutine is not set before the switch", q.trace())
        # initialised exactly when it was not
        inited = [t2 for pr, a, b, e in known(q, y) for t2 in [pr == "ne"] if is_fld(deload(a), None, "inited") and base(deload(a)) == ("fld", ("a", 1), "coroutine_t", "aco") and const(b) == 0]
        ini = [(i, e) for i, e in calls(q, "aco_create_init") if i < y]
        if ini:
            e = ini[0][1]
            args = e.args
            c.check("resume", f.name, len(ini) == 1 and is_fld(args[0], "coroutine_t", "aco") and base(args[0]) == ("a", 1) and is_fld(args[1], "n_processor_t", "main_aco") and base(args[1]) == ("a", 0)
                    and is_fld(args[2], "n_processor_t", "share_stack") and base(args[2]) == ("a", 0) and fnname(args[4]) == "coroutine_wrapper" and strip_casts(args[5]) == ("a", 1), "init", e.loc,
                    "the coroutine is not set up to run its wrapper on this processor's stack", q.trace())
            c.check("resume", f.name, inited and not inited[0], "reinit", e.loc, "a coroutine that already ran is set up again and restarts from the beginning", q.trace())
        else:
            c.check("resume", f.name, bool(inited) and inited[0], "uninit", q.end_loc(), "a coroutine that was never set up is resumed", q.trace())
        # the pending release
        cb = [(i, e) for i, e in indirect(q)]
        has = [pr == "ne" for pr, a, b, e in known(q) if loaded(a, "wait_unlock_fn") == ("a", 1) and const(b) == 0]
        c.check("resume", f.name, bool(has), "pending", q.end_loc(), "the release a waiting coroutine asked for is not looked at after the switch", q.trace())
        if has and has[0]:
            good = [i for i, e in cb if i > y and loaded(e.name[1], "wait_unlock_fn") == ("a", 1) and strip_casts(e.args[0]) == ("a", 1) and loaded(e.args[1], "wait_lock") == ("a", 1)]
            c.check("resume", f.name, len(good) == 1 and len(cb) == 1, "release", q.end_loc(), "the release the coroutine asked for runs %d times with its own lock after the switch" % len(good), q.trace())
            clr = [e for i, e in stores(q, "coroutine_t", "wait_unlock_fn") if i > y and base(e.addr) == ("a", 1) and is_null(e.val)]
            c.check("resume", f.name, len(clr) >= 1, "clear", q.end_loc(), "the release stays pending: it runs again after the next switch", q.trace())
            lk = [i for i, e in stores(q, "coroutine_t", "wait_lock") if i > y and base(e.addr) == ("a", 1)]
            c.check("resume", f.name, not good or not lk or lk[0] > good[0], "lock", q.end_loc(), "the lock to release is dropped before the release runs", q.trace())
        else:
            c.check("resume", f.name, not cb, "release", q.end_loc(), "a release runs that nobody asked for", q.trace())
    c.need(n >= 2, "coroutine_resume: %d paths" % n)


def loop(c, p, x):
    f = p.need("processor_run")
    c.unit(f.name)
    n = pops = 0
    for q in x.paths(f, keep={"coroutine_resume", "global_loop_run"}, loops=2, vn=True, max_paths=200000):
        if q.dead:
            continue
        n += 1
        own = ("a", 0)
        got = []
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "rt_linked_fixalloc_pop" and is_fld(e.args[0], "n_processor_t", "runnable_list"):
                c.check("loop", f.name, base(e.args[0]) == own, "pop", e.loc, "takes a coroutine from the queue of another processor", q.trace())
                got.append((i, e))
        rs = calls(q, "coroutine_resume")
        for j, (i, e) in enumerate(got):
            nn = [pr for pr, a, b, _ in known(q) if strip_casts(a) == strip_casts(e.res) and const(b) == 0 and pr in ("eq", "ne")]
            r = [k for k, z in rs if strip_casts(z.args[1]) == strip_casts(e.res) and U(z.args[0]) == own]
            if "eq" in nn:
                c.check("loop", f.name, not r, "none", e.loc, "resumes although the queue was empty", q.trace())
                continue
            pops += 1
            c.check("loop", f.name, len(r) == 1, "run", e.loc, "a coroutine taken from the queue is resumed %d times on this processor" % len(r), q.trace())
        c.check("loop", f.name, len(rs) == sum(1 for k, z in rs if any(strip_casts(z.args[1]) == strip_casts(e.res) for _, e in got)), "source", q.end_loc(), "resumes a coroutine it did not take from its queue", q.trace())
        ex = [pr for pr, a, b, _ in known(q) if strip_casts(a)[0] == "ld" and strip_casts(strip_casts(a)[1]) == ("g", "main_coroutine_exited") and const(b) == 0]
        c.check("loop", f.name, bool(ex) and ex[-1] == "ne", "leave", q.end_loc(), "the thread leaves its run loop although the main coroutine has not ended: its coroutines are never run", q.trace())
    c.need(n >= 3 and pops >= 3, "processor_run: %d paths, %d coroutines taken" % (n, pops))
    # set-up before the loop: the thread's identity and its stack
    k = 0
    for q in x.paths(f, keep={"coroutine_resume", "global_loop_run"}, loops=1, vn=True, max_paths=200000):
        rs = calls(q, "coroutine_resume")
        if not rs:
            continue
        k += 1
        i0 = rs[0][0]
        for nm, ok in (("tls_processor_key", [1 for i, e in calls(q, "uv_key_set") if i < i0 and strip_casts(e.args[0]) == ("g", "tls_processor_key") and strip_casts(e.args[1]) == ("a", 0)]),
                       ("main_aco", [1 for i, e in calls(q, "aco_create_init") if i < i0 and is_fld(e.args[0], "n_processor_t", "main_aco") and base(e.args[0]) == ("a", 0)]),
                       ("share_stack", [1 for i, e in calls(q, "aco_share_stack_init") if i < i0 and is_fld(e.args[0], "n_processor_t", "share_stack") and base(e.args[0]) == ("a", 0)])):
            c.check("loop", f.name, len(ok) == 1, "setup:" + nm, q.end_loc(), "%s is not set up exactly once before the first coroutine runs" % nm, q.trace())
    c.need(k >= 1, "processor_run: no path resumes")
    # a stopped world is left only when the collector lets go: the wait loop re-reads the request
    w = 0
    for q in x.paths(f, keep={"coroutine_resume", "global_loop_run"}, loops=1, vn=False, max_paths=200000):
        sp = [(i, pr) for i, (pr, a, b, e) in ((q.index(e), (pr, a, b, e)) for pr, a, b, e in known(q)) if is_safepoint(a) and const(b) == 0]
        for j, e in enumerate(q.ev):
            if e.k != "call" or e.name != "coroutine_resume":
                continue
            prev = [(i, pr) for i, pr in sp if i < j]
            w += 1
            c.check("loop", f.name, bool(prev), "stw", e.loc, "a coroutine is resumed without looking whether the collector has stopped the world", q.trace())
            stop = [i for i, pr in prev if pr in ("ugt", "ne", "sgt")]
            if stop and (not prev or prev[-1][0] == stop[-1]):
                # request seen: in_stw is published and the wait ends only on a changed request
                st = [i for i, z in stores(q, "n_processor_t", "in_stw") if stop[-1] < i < j and is_safepoint(z.val)]
                left = [i for i, (pr, a, b, z) in ((q.index(z), (pr, a, b, z)) for pr, a, b, z in known(q)) if stop[-1] < i < j and pr == "ne" and {key_of(a), key_of(b)} & {("n_processor_t", "in_stw")} and (is_safepoint(a) or is_safepoint(b))]
                left += [i for i, (pr, a, b, z) in ((q.index(z), (pr, a, b, z)) for pr, a, b, z in known(q)) if st and st[-1] < i < j and pr in ("eq", "ule") and const(b) == 0 and key_of(a) == ("n_processor_t", "in_stw")]
                c.check("loop", f.name, bool(st) and bool(left), "stwwait", e.loc, "coroutines run although the collector asked the world to stop", q.trace())
    c.need(w >= 2, "processor_run: no resume")


def is_safepoint(e):
    return any(s == ("g", "global_safepoint") for s in subexprs(e))


def exiting(c, p, x):
    f = p.need("coroutine_wrapper")
    c.unit(f.name)
    D, R = ST(p, "DEAD"), ST(p, "RUNNABLE")
    n = w = err = mains = 0
    for q in Walker(p, vn=True, inline=lambda g: g.file in FILES and g.name not in KEEP, loops=1).paths(f):
        # complete paths end in the final switch away or in the program's exit
        sw = [i for i, e in calls(q, "acosw")]
        ex = calls(q, "exit", "_exit", "abort")
        ex = [z for z in ex if z[1].name != "abort"]
        started = indirect(q)
        if not started and not sw and not ex:
            continue
        if not steady(q, ("has_error", "future", "main"), started[0][0] if started else 0):
            continue
        if not sw and not ex:
            if not any(e.name in ("__assert_fail", "assertf", "abort") for e in q.ev if e.k == "call"):
                c.bad("exit", "end", q.end_loc(), "the coroutine's wrapper ends without switching away for good", q.trace())
            continue
        n += 1
        # the coroutine: the argument of the current context
        co = None
        for i, e in started:
            r = [s for s in subexprs(e.name) if s[0] == "ld" and is_fld(s[1], "coroutine_t", "fn")]
            if r:
                co = base(r[0][1])
        c.check("exit", f.name, co is not None and len(started) == 1, "call", q.end_loc(), "the coroutine's function is called %d times" % len(started), q.trace())
        if co is None or len(started) != 1:
            continue
        i0 = started[0][0]
        direct = [pr == "ne" for pr, a, b, _ in known(q, i0) if any(is_fld(s, "coroutine_t", "flag") for s in subexprs(a)) and const(b) == 0]
        e = started[0][1]
        isdirect = loaded(e.name[1], "fn") == co
        if direct:
            c.check("exit", f.name, direct[-1] == isdirect, "direct", e.loc, "a %s function is called as a %s" % (("plain", "closure") if direct[-1] else ("closure", "plain function")), q.trace())
        if not isdirect:
            c.check("exit", f.name, loaded(e.name[1], "fn_addr") is not None and len(e.args) >= 1 and loaded(e.args[0], "envs") is not None, "closure", e.loc, "the closure is called without its captured variables", q.trace())
        he = [(q.index(z), pr == "ne") for pr, a, b, z in known(q) if loaded(a, "has_error") == co and const(b) == 0 and q.index(z) > i0]
        herr = he[0][1] if he else None
        fut = [pr == "ne" for pr, a, b, z in known(q) if loaded(a, "future") == co and const(b) == 0]
        fut = fut[0] if fut else None
        lk = [(i, z) for i, z in calls(q, "mutex_lock") if is_fld(z.args[0], "coroutine_t", "dead_locker") and base(z.args[0]) == co and i > i0]
        ul = [(i, z) for i, z in calls(q, "mutex_unlock") if is_fld(z.args[0], "coroutine_t", "dead_locker") and base(z.args[0]) == co and i > i0]
        c.check("exit", f.name, len(lk) == 1, "lock", q.end_loc(), "the completion is not published under the coroutine's lock", q.trace())
        if len(lk) != 1:
            continue
        L = lk[0][0]
        aw = [(q.index(z), pr == "ne") for pr, a, b, z in known(q) if loaded(a, "await_co") == co and const(b) == 0]
        c.check("exit", f.name, bool(aw) and all(i > L for i, _ in aw), "awaiter", q.end_loc(), "the awaiter is looked up outside the lock: one that registers now is never woken", q.trace())
        # the loads themselves also lie under the lock
        for i, z in enumerate(q.ev):
            if z.k == "load" and is_fld(z.addr, "coroutine_t", "await_co") and base(z.addr) == co and i < L:
                c.bad("exit", "awaiter", z.loc, "the awaiter is read before the lock is taken", q.trace())
        if herr is None:
            c.bad("exit", "error", q.end_loc(), "the coroutine ends without asking whether it failed", q.trace())
            continue
        if ex:
            err += 1
            st = const(ex[0][1].args[0])
            dmp = [i for i, z in calls(q, "coroutine_dump_error") if U(z.args[0]) == co]
            c.check("exit", f.name, herr and aw and not aw[-1][1], "spurious", ex[0][1].loc, "the program is ended although the coroutine %s" % ("has an awaiter" if herr else "did not fail"), q.trace())
            c.check("exit", f.name, st is not None and st & 0xff != 0, "exitcode", ex[0][1].loc, "an uncaught error ends the program with status %s" % st, q.trace())
            c.check("exit", f.name, bool(dmp) and dmp[0] < ex[0][0], "report", ex[0][1].loc, "an uncaught error is not reported", q.trace())
            continue
        if herr and fut:
            un = [(i, z) for i, z in calls(q, "union_casting") if is_fld(z.args[0], "n_future_t", "error") and loaded(strip_casts(z.args[0])[1], "future") == co]
            okc = len(un) == 1 and un[0][0] < L and is_fld(un[0][1].args[2], "coroutine_t", "error") and base(un[0][1].args[2]) == co
            c.check("exit", f.name, okc, "deliver", q.end_loc(), "the error of the coroutine is not stored in its future before the awaiter is woken", q.trace())
        if herr is False:
            un = [(i, z) for i, z in calls(q, "union_casting") if is_fld(z.args[0], "n_future_t", "error")]
            c.check("exit", f.name, not un, "deliver", q.end_loc(), "the future of a successful coroutine receives an error", q.trace())
        U0 = ul[0][0] if ul else len(q.ev)
        ps = pushes(q)
        if aw and aw[-1][1]:
            w += 1
            ok = len(ps) == 1 and loaded(ps[0][1].args[1], "await_co") == co and L < ps[0][0]
            c.check("exit", f.name, ok, "wakeup", q.end_loc(), "the awaiter is queued %d times" % len(ps), q.trace())
        else:
            c.check("exit", f.name, not ps, "wakeup", q.end_loc(), "a coroutine is queued although nobody waits", q.trace())
            c.check("exit", f.name, not herr, "uncaught", q.end_loc(), "an error nobody waits for is dropped silently", q.trace())
        dead = [i for i, z in stores(q, "coroutine_t", "status") if base(z.addr) == co and const(z.val) == D and i > i0]
        c.check("exit", f.name, len(dead) == 1 and L < dead[0] < U0, "dead", q.end_loc(), "the coroutine is not marked dead under its lock: an awaiter arriving now waits for ever", q.trace())
        c.check("exit", f.name, len(ul) == 1, "unlock", q.end_loc(), "the lock is released %d times" % len(ul), q.trace())
        late = [i for i, z in stores(q, "coroutine_t", "status") if base(z.addr) == co and dead and i > dead[0]]
        c.check("exit", f.name, not late, "undead", q.end_loc(), "the state is changed after the coroutine was marked dead", q.trace())
        if fut:
            cl = [i for i, z in stores(q, "n_future_t", "await_co") if loaded(strip_casts(z.addr)[1], "future") == co and is_null(z.val) and L < i < U0]
            c.check("exit", f.name, len(cl) >= 1, "forget", q.end_loc(), "the future keeps naming the dead coroutine: after it was reclaimed an await waits for whatever reuses its memory", q.trace())
        mn = [(q.index(z), pr == "ne") for pr, a, b, z in known(q) if loaded(a, "main") == co and const(b) == 0]
        se = [i for i, z in enumerate(q.ev) if z.k == "store" and strip_casts(z.addr) == ("g", "main_coroutine_exited")]
        c.check("exit", f.name, bool(mn), "main", q.end_loc(), "the end of the main coroutine is not recognised", q.trace())
        if mn:
            mains += mn[-1][1]
            c.check("exit", f.name, bool(se) == mn[-1][1] and all(const(q.ev[i].val) & 1 for i in se), "main", q.end_loc(),
                    "the program %s" % ("never learns that its main coroutine ended" if mn[-1][1] else "is ended by a coroutine other than main"), q.trace())
            c.check("exit", f.name, not se or se[0] > i0, "main", q.end_loc(), "the program is ended before its main function ran", q.trace())
        # the final switch: marked ended, stack released
        s = [i for i in sw if is_fld(q.ev[i].args[0], "coroutine_t", "aco") and base(q.ev[i].args[0]) == co]
        en = [i for i, z in enumerate(q.ev) if z.k == "store" and is_fld(z.addr, None, "is_end") and const(z.val) == 1]
        ow = [i for i, z in enumerate(q.ev) if z.k == "store" and is_fld(z.addr, None, "owner") and is_null(z.val)]
        c.check("exit", f.name, len(s) == 1 and len(sw) == 1 and en and en[0] < s[0] and ow and ow[0] < s[0] and s[0] > U0, "leave", q.end_loc(),
                "the finished coroutine does not give up its stack before the final switch", q.trace())
    c.need(n >= 6 and w >= 2 and err >= 1 and mains >= 1, "coroutine_wrapper: %d paths, %d wake-ups, %d failures, %d main" % (n, w, err, mains))
    # errors raised by native code reach the coroutine they belong to
    for fn, who in (("rti_throw", None), ("rti_co_throw", ("a", 0))):
        f = p.need(fn)
        c.unit(fn)
        for q in Walker(p, vn=True, loops=1).paths(f):
            if q.dead:
                continue
            s = [(i, e) for i, e in stores(q, "coroutine_t", "has_error") if const(e.val) not in (0, None)]
            t = [b for b in (base(e.addr) for _, e in s) if b == who or (who is None and b[0] == "call" and b[1] == "coroutine_get")]
            c.check("exit", fn, len(t) >= 1, "raise", q.end_loc(), "a raised error does not mark the coroutine as failed", q.trace())
            wb = [e for _, e in calls(q, "rti_write_barrier_rtype") if is_fld(e.args[0], "coroutine_t", "error") and base(e.args[0]) in t]
            c.check("exit", fn, len(wb) == 1, "raise", q.end_loc(), "the raised error is not recorded", q.trace())


def null_used(q):
    """the path goes through a pointer it later finds to be null: nothing runs it"""
    used = [(i, U(strip_casts(z.addr)[1])) for i, z in enumerate(q.ev) if z.k in ("load", "store") and strip_casts(z.addr)[0] == "fld"]
    return any(pr == "eq" and const(b) == 0 and any(i < q.index(z) and u == U(a) for i, u in used) for pr, a, b, z in known(q))


def awaiting(c, p, x):
    f = p.need("rt_coroutine_await")
    c.unit(f.name)
    D, W, R = ST(p, "DEAD"), ST(p, "WAITING"), ST(p, "RUNNABLE")
    T = ("a", 0)
    n = done = waits = 0
    for q in x.paths(f, vn=True):
        if q.dead:
            continue
        n += 1
        null = any(pr == "eq" and strip_casts(a) == T and const(b) == 0 for pr, a, b, _ in known(q))
        ys = yields(q)
        lk = [i for i, z in calls(q, "mutex_lock") if is_fld(z.args[0], "coroutine_t", "dead_locker") and base(z.args[0]) == T]
        ul = [i for i, z in calls(q, "mutex_unlock") if is_fld(z.args[0], "coroutine_t", "dead_locker") and base(z.args[0]) == T]
        if null:
            c.check("await", f.name, not ys and not lk, "gone", q.end_loc(), "awaiting a coroutine that is gone does not return at once", q.trace())
            continue
        c.check("await", f.name, len(lk) == 1 and len(ul) == 1 and lk[0] < ul[0], "lock", q.end_loc(), "the coroutine's lock is taken %d and released %d times" % (len(lk), len(ul)), q.trace())
        if not (len(lk) == 1 and len(ul) == 1):
            continue
        dd = [(q.index(z), pr == "eq") for pr, a, b, z in known(q) if loaded(a, "status") == T and const(b) == D and pr in ("eq", "ne")]
        sl = [i for i, z in enumerate(q.ev) if z.k == "load" and is_fld(z.addr, "coroutine_t", "status") and base(z.addr) == T]
        c.check("await", f.name, bool(dd) and sl and all(lk[0] < i < ul[0] for i in sl), "test", q.end_loc(), "whether the coroutine is dead is not decided under its lock", q.trace())
        for i, z in enumerate(q.ev):
            if z.k == "load" and is_fld(z.addr, "coroutine_t", "status") and base(z.addr) == T:
                c.check("await", f.name, lk[0] < i < ul[0], "test", z.loc, "the state is read outside the lock", q.trace())
        reg = [(i, e) for i, e in stores(q, "coroutine_t", "await_co") if base(e.addr) == T]
        if not dd:
            continue
        if dd[0][1]:
            done += 1
            c.check("await", f.name, not ys and not reg, "dead", q.end_loc(), "awaiting a finished coroutine waits for ever", q.trace())
            continue
        waits += 1
        me = U(reg[-1][1].val) if reg else None
        c.check("await", f.name, len(reg) == 1 and lk[0] < reg[0][0] < ul[0] and me[0] == "call" and me[1] == "coroutine_get", "register", q.end_loc(),
                "the awaiter does not register itself under the lock: the end of the coroutine goes unnoticed", q.trace())
        c.check("await", f.name, len(ys) == 1 and ys[0][0] > ul[0] and base(ys[0][1].args[0]) == me, "switch", q.end_loc(), "the awaiter switches away %d times after releasing the lock" % len(ys), q.trace())
        if not reg or not ys:
            continue
        st = status_writes(q, me, 0, ys[0][0])
        c.check("await", f.name, bool(st) and all(lk[0] < i < ul[0] for i, _ in st) and const(st[-1][1].val) == W, "status", q.end_loc(),
                "the awaiter is not marked waiting under the lock: a wake-up may be overwritten", q.trace())
        bk = status_writes(q, me, ys[0][0], len(q.ev))
        c.check("await", f.name, bool(bk) and const(bk[-1][1].val) not in (W, R, D), "back", q.end_loc(), "the awaiter keeps the state it waited in", q.trace())
        c.check("await", f.name, not pushes(q), "queue", q.end_loc(), "the awaiter queues a coroutine", q.trace())
    c.need(done >= 1 and waits >= 1, "rt_coroutine_await: %d paths, %d done, %d waiting" % (n, done, waits))
    f = p.need("rt_coroutine_async")
    c.unit(f.name)
    for q in x.paths(f, keep={"rt_coroutine_new", "rt_coroutine_dispatch"}):
        if q.dead:
            continue
        nw, ds = calls(q, "rt_coroutine_new"), calls(q, "rt_coroutine_dispatch")
        ok = len(nw) == 1 and len(ds) == 1 and U(ds[0][1].args[0]) == U(nw[0][1].res) and [strip_casts(a) for a in nw[0][1].args[:3]] == [("a", 0), ("a", 1), ("a", 2)]
        c.check("await", f.name, ok, "async", q.end_loc(), "the coroutine is not created with the given function and future and dispatched once", q.trace())
        if ok:
            s = [i for i, e in stores(q, "n_future_t", "await_co") if base(e.addr) == ("a", 2) and U(e.val) == U(nw[0][1].res)]
            c.check("await", f.name, len(s) == 1 and s[0] < ds[0][0], "future", q.end_loc(), "the future does not name its coroutine before it can run", q.trace())
            r = [e for e in q.ev if e.k == "ret" and e.depth == 0]
            c.check("await", f.name, bool(r) and U(r[-1].val) == U(nw[0][1].res), "handle", q.end_loc(), "does not return the coroutine", q.trace())
    f = p.need("rt_coroutine_async2")
    c.unit(f.name)
    k = 0
    DIR = 1 << p.enum("CO_FLAG_DIRECT")
    for q in x.paths(f, keep={"rt_coroutine_new", "rt_coroutine_dispatch"}):
        if q.dead:
            continue
        k += 1
        nw, ds = calls(q, "rt_coroutine_new"), calls(q, "rt_coroutine_dispatch")
        ok = len(nw) == 1 and len(ds) == 1 and U(ds[0][1].args[0]) == U(nw[0][1].res) and strip_casts(nw[0][1].args[0]) == ("a", 0)
        c.check("await", f.name, ok, "go", q.end_loc(), "the coroutine is not created with the given function and dispatched once", q.trace())
        if ok:
            d = [pr == "ne" for pr, a, b, _ in known(q) if strip_casts(a) == ("a", 2) and const(b) == 0]
            d += [t for z in q.ev if z.k == "assume" for cc, t in [truth_of(z)] if strip_casts(cc) == ("a", 2)]
            fl = strip_casts(nw[0][1].args[1])
            has = fl[0] == "bin" and fl[1] == "or" and DIR in (const(fl[2]), const(fl[3]))
            plain = fl == ("a", 1)
            sel = fl[0] == "sel"
            c.check("await", f.name, sel or (d and ((d[0] and has) or (not d[0] and plain))), "flag", q.end_loc(), "whether the function is called directly is lost", q.trace())
    c.need(k >= 1, "rt_coroutine_async2: no path")


FIELDS = {"fn": 0, "future": 2, "arg": 3}


def spawn(c, p, x):
    f = p.need("rt_coroutine_new")
    c.unit(f.name)
    R = ST(p, "RUNNABLE")
    MAIN = 1 << p.enum("CO_FLAG_MAIN")
    n = 0
    for q in x.paths(f, vn=True, blocks=True):
        if q.dead:
            continue
        n += 1
        al = calls(q, "fixalloc_alloc")
        c.check("spawn", f.name, len(al) == 1 and strip_casts(al[0][1].args[0]) == ("g", "coroutine_alloc"), "alloc", q.end_loc(), "no fresh coroutine is allocated", q.trace())
        if len(al) != 1:
            continue
        lk = [i for i, z in calls(q, "mutex_lock") if strip_casts(z.args[0]) == ("g", "cp_alloc_locker")]
        ul = [i for i, z in calls(q, "mutex_unlock") if strip_casts(z.args[0]) == ("g", "cp_alloc_locker")]
        cnt = [i for i, z in enumerate(q.ev) if z.k in ("store", "rmw") and strip_casts(z.addr) == ("g", "coroutine_count")]
        c.check("spawn", f.name, len(lk) == 1 and len(ul) == 1 and lk[0] < al[0][0] < ul[0], "lock", q.end_loc(), "the coroutine allocator is used outside its lock", q.trace())
        c.check("spawn", f.name, len(lk) == 1 and len(ul) == 1 and all(lk[0] < i < ul[0] for i in cnt if q.ev[i].k == "store"), "id", q.end_loc(), "coroutine numbers are handed out outside the lock", q.trace())
        co = U(al[0][1].res)
        last = {}
        for i, e in enumerate(q.ev):
            if e.k == "store" and strip_casts(e.addr)[0] == "fld" and base(e.addr) == co:
                last[strip_casts(e.addr)[3]] = e
        for fld, a in FIELDS.items():
            c.check("spawn", f.name, fld in last and strip_casts(last[fld].val) == ("a", a), fld, q.end_loc(), "the coroutine does not receive its %s" % fld, q.trace())
        c.check("spawn", f.name, "status" in last and const(last["status"].val) == R, "status", q.end_loc(), "a new coroutine is not runnable", q.trace())
        c.check("spawn", f.name, "flag" in last and strip_casts(last["flag"].val) == ("a", 1), "flag", q.end_loc(), "the coroutine loses its flags", q.trace())
        mv = strip_casts(last["main"].val) if "main" in last else None
        c.check("spawn", f.name, mv is not None and any(s == ("a", 1) for s in subexprs(mv)) and any(s == ("c", MAIN) for s in subexprs(mv)), "main", q.end_loc(), "the main coroutine is not recognised", q.trace())
        r = [e for e in q.ev if e.k == "ret" and e.depth == 0]
        c.check("spawn", f.name, bool(r) and U(r[-1].val) == co, "ret", q.end_loc(), "the new coroutine is not returned", q.trace())
        # values a reused coroutine object must not inherit
        for fld in ("wait_unlock_fn", "await_co", "has_error"):
            c.check("spawn", f.name, fld not in last or const(last[fld].val) == 0, "stale:" + fld, q.end_loc(), "a new coroutine starts with %s set" % fld, q.trace())
    c.need(n >= 1, "rt_coroutine_new: no path")
    # the allocator clears what it hands out
    f = p.need("fixalloc_alloc")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        r = [e for e in q.ev if e.k == "ret" and e.depth == 0][-1]
        ms = [e for e in q.ev if e.k == "call" and str(e.name).startswith("llvm.memset") and U(e.args[0]) == U(r.val) and const(e.args[1]) == 0 and loaded(e.args[2], "size") == ("a", 0)]
        c.check("spawn", f.name, len(ms) >= 1, "clear", q.end_loc(), "a reused object keeps its old contents", q.trace())
    f = p.need("rt_coroutine_dispatch")
    c.unit(f.name)
    SAME = 1 << p.enum("CO_FLAG_SAME")
    n = mains = sames = 0
    for q in x.paths(f, keep={"processor_wake"}, vn=True, loops=2):
        if q.dead:
            continue
        n += 1
        pr_, pc = pushes(q), pushes(q, "co_list")
        c.check("spawn", f.name, len(pr_) == 1 and U(pr_[0][1].args[1]) == ("a", 0), "run", q.end_loc(), "the new coroutine is queued %d times" % len(pr_), q.trace())
        c.check("spawn", f.name, len(pc) == 1 and U(pc[0][1].args[1]) == ("a", 0), "list", q.end_loc(), "the new coroutine is entered %d times in the list of all coroutines: the collector %s" % (len(pc), "misses its stack" if not pc else "frees it twice"), q.trace())
        if len(pr_) != 1 or len(pc) != 1:
            continue
        sel = base(pr_[0][1].args[0])
        c.check("spawn", f.name, sel == base(pc[0][1].args[0]), "same", q.end_loc(), "the coroutine is listed on another processor than the one that runs it", q.trace())
        c.check("spawn", f.name, pc[0][0] < pr_[0][0], "order", q.end_loc(), "the coroutine can run before the collector knows it", q.trace())
        wk = [i for i, z in calls(q, "processor_wake") if U(z.args[0]) == sel]
        c.check("spawn", f.name, len(wk) >= 1, "wake", q.end_loc(), "the thread of the chosen processor is not started: the coroutine never runs", q.trace())
        mn = [pr == "ne" for pr, a, b, _ in known(q) if loaded(a, "main") == ("a", 0) and const(b) == 0]
        sm = [pr == "ne" for pr, a, b, _ in known(q) if any(is_fld(s, "coroutine_t", "flag") for s in subexprs(a)) and any(s == ("c", SAME) for s in subexprs(a)) and const(b) == 0]
        if mn and mn[0]:
            mains += 1
            c.check("spawn", f.name, sel[0] == "ld" and any(s == ("g", "processor_index") for s in subexprs(sel)), "first", q.end_loc(), "the main coroutine is not given to the first processor", q.trace())
        elif sm and sm[0]:
            sames += 1
            c.check("spawn", f.name, sel[0] == "call" and sel[1] == "processor_get", "pinned", q.end_loc(), "a coroutine pinned to its creator's processor is given to another one", q.trace())
        else:
            c.check("spawn", f.name, any(s == ("g", "processor_list") for s in subexprs(sel)), "any", q.end_loc(), "the coroutine is given to something that is no processor of the program", q.trace())
    c.need(n >= 3 and mains and sames, "rt_coroutine_dispatch: %d paths" % n)
    # the collector's own coroutine is entered in both lists of the same, started processor
    f = p.need("inject_gc_work_coroutine")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        for i, e in calls(q, "rt_coroutine_new"):
            co = U(e.res)
            nx = min([k for k, z in calls(q, "rt_coroutine_new") if k > i] or [len(q.ev)])
            a = [base(z.args[0]) for k, z in pushes(q, "co_list") if i < k < nx and U(z.args[1]) == co]
            b = [base(z.args[0]) for k, z in pushes(q) if i < k < nx and U(z.args[1]) == co]
            c.check("spawn", f.name, len(a) == 1 and a == b, "gc", e.loc, "the collector's coroutine is not entered once in both lists of one processor", q.trace())


def wake(c, p, x):
    f = p.need("processor_wake")
    c.unit(f.name)
    n = won = 0
    for q in x.paths(f):
        if q.dead:
            continue
        n += 1
        th = calls(q, "uv_thread_create")
        cas = [e for e in q.ev if e.k in ("cas", "rmw") and is_fld(e.addr, "n_processor_t", "thread_waked")]
        win = None
        for e in cas:
            if e.k == "cas" and const(e.args[0]) == 0 and const(e.args[1]) in (1, -1):
                win = cas_success(q, e)
            elif e.k == "rmw" and e.name in ("xchg", "or") and const(e.args[0]) in (1, -1):
                w = [pr == "eq" for pr, a, b, _ in known(q) if strip_casts(a) == strip_casts(e.res) and const(b) == 0]
                win = w[0] if w else None
        c.check("wake", f.name, win is not None, "atomic", q.end_loc(), "who starts the thread is not decided by one atomic step: two threads could run one processor", q.trace())
        if win is None:
            continue
        won += win
        ok = [e for i, e in th if is_fld(e.args[0], "n_processor_t", "thread_id") and base(e.args[0]) == ("a", 0) and fnname(e.args[1]) == "processor_run" and strip_casts(e.args[2]) == ("a", 0)]
        c.check("wake", f.name, len(th) == len(ok) == (1 if win else 0), "thread", q.end_loc(), "%d threads are started by a caller that %s" % (len(th), "won" if win else "lost"), q.trace())
    c.need(won >= 1 and n > won, "processor_wake: %d paths, %d winning" % (n, won))
    # nothing else starts or runs a processor
    for f in p.unique():
        for i in f.calls():
            if i.callee == "processor_run":
                c.check("wake", f.name, f.name == "sched_run" and any(s == ("g", "processor_index") for s in subexprs(static_expr(f, i.ops[0]))), "runner", i.loc, "the run loop of a processor is entered from %s" % f.name)


def asyncq(c, p, x):
    G = "global"
    H = "async_handle_t"

    def filled(q, fn, h, upto):
        for fld, a in (("fn", 0), ("arg1", 1), ("arg2", 2), ("arg3", 3)):
            s = [e for i, e in stores(q, H, fld) if base(e.addr) == h and i < upto]
            c.check("async", fn, bool(s) and strip_casts(s[-1].val) == ("a", a), "fill:" + fld, q.end_loc(), "the %s of the work handed over is not the caller's" % fld, q.trace())

    f = p.need("global_waiting_send")
    c.unit(f.name)
    k = 0
    for q in x.paths(f, keep={"acquire_async_handle", "release_async_handle", "co_yield_waiting"}):
        if q.dead:
            continue
        k += 1
        y = calls(q, "co_yield_waiting")
        c.check("async", f.name, len(y) == 1, "yield", q.end_loc(), "the caller waits %d times" % len(y), q.trace())
        if len(y) != 1:
            continue
        e = y[0][1]
        me = U(e.args[0])
        h = U(e.args[2])
        c.check("async", f.name, me[0] == "call" and me[1] == "coroutine_get", "self", e.loc, "another coroutine than the caller is put to wait", q.trace())
        c.check("async", f.name, fnname(e.args[1]) == "global_async_handle_register", "deferred", e.loc, "the work is not published by the switch itself", q.trace())
        c.check("async", f.name, h[0] == "call" and h[1] == "acquire_async_handle", "handle", e.loc, "the work published is not the caller's", q.trace())
        filled(q, f.name, h, y[0][0])
        early = [i for i, z in enumerate(q.ev) if (z.k == "store" and is_fld(z.addr, None, "async_queue")) or (z.k == "call" and z.name in ("uv_async_send", "global_async_handle_register"))]
        c.check("async", f.name, not early, "early", q.end_loc(), "the work is published before the coroutine has switched away: it may be woken while still running", q.trace())
    c.need(k >= 1, "global_waiting_send: no path")
    for fn, deferred in (("global_async_handle_register", True), ("global_async_send", False)):
        f = p.need(fn)
        c.unit(fn)
        for q in x.paths(f, keep={"acquire_async_handle", "release_async_handle"}):
            if q.dead:
                continue
            h = ("a", 1) if deferred else None
            if not deferred:
                a = calls(q, "acquire_async_handle")
                c.check("async", fn, len(a) == 1, "handle", q.end_loc(), "no handle is acquired", q.trace())
                if len(a) != 1:
                    continue
                h = U(a[0][1].res)
            lk = [i for i, z in calls(q, "pthread_mutex_lock") if is_fld(z.args[0], None, "async_lock")]
            ul = [i for i, z in calls(q, "pthread_mutex_unlock") if is_fld(z.args[0], None, "async_lock")]
            nx = [(i, e) for i, e in stores(q, H, "next") if base(e.addr) == h and is_fld(deload(e.val), None, "async_queue")]
            hd = [(i, e) for i, e in enumerate(q.ev) if e.k == "store" and is_fld(e.addr, None, "async_queue")]
            ok = len(lk) == len(ul) == 1 and len(nx) == 1 and len(hd) == 1 and U(hd[0][1].val) == h and lk[0] < nx[0][0] < hd[0][0] < ul[0]
            c.check("async", fn, ok, "enqueue", q.end_loc(), "the work is not linked in front of the queue under its lock: work of another thread is lost", q.trace())
            ld = [i for i, z in enumerate(q.ev) if z.k == "load" and is_fld(z.addr, None, "async_queue")]
            c.check("async", fn, len(lk) == 1 and all(lk[0] < i for i in ld), "enqueue", q.end_loc(), "the head of the queue is read outside its lock", q.trace())
            s = [i for i, z in calls(q, "uv_async_send") if is_fld(z.args[0], None, "async_handle")]
            c.check("async", fn, len(s) >= 1 and ok and s[-1] > hd[0][0], "signal", q.end_loc(), "the event loop is not told about the work", q.trace())
            if not deferred and ok:
                filled(q, fn, h, hd[0][0])
    f = p.need("global_async_queue_process_cb")
    c.unit(f.name)
    n = 0
    for q in x.paths(f, keep={"acquire_async_handle", "release_async_handle"}, loops=2, vn=True):
        if q.dead:
            continue
        lk = [i for i, z in calls(q, "pthread_mutex_lock") if is_fld(z.args[0], None, "async_lock")]
        ul = [i for i, z in calls(q, "pthread_mutex_unlock") if is_fld(z.args[0], None, "async_lock")]
        cb = indirect(q)
        if not lk:
            c.check("async", f.name, not cb, "unlocked", q.end_loc(), "work is run without taking the queue", q.trace())
            emp = any(pr == "eq" and is_fld(deload(a), None, "async_queue") and const(b) == 0 for pr, a, b, _ in known(q))
            c.check("async", f.name, emp, "skip", q.end_loc(), "returns although work is queued", q.trace())
            continue
        st = [(i, e) for i, e in enumerate(q.ev) if e.k == "store" and is_fld(e.addr, None, "async_queue")]
        ok = len(lk) == len(ul) == 1 and len(st) == 1 and is_null(st[0][1].val) and lk[0] < st[0][0] < ul[0]
        c.check("async", f.name, ok, "take", q.end_loc(), "the queue is not taken over as a whole under its lock: work runs twice or is lost", q.trace())
        if not ok:
            continue
        heads = [e for i, e in enumerate(q.ev) if e.k == "load" and is_fld(e.addr, None, "async_queue") and lk[0] < i < ul[0]]
        c.check("async", f.name, len(heads) >= 1, "take", q.end_loc(), "the queue is not read under its lock", q.trace())
        if not heads:
            continue
        cur = U(heads[-1].res)
        rel = calls(q, "release_async_handle")
        for j, (i, e) in enumerate(cb):
            n += 1
            ok = loaded(e.name[1], "fn") == cur and [loaded(a, "arg%d" % (t + 1)) for t, a in enumerate(e.args[:3])] == [cur] * 3 and len(e.args) == 3
            c.check("async", f.name, ok, "run", e.loc, "the %s piece of work is not run with its own arguments" % ("first" if j == 0 else "next"), q.trace())
            r = [k for k, z in rel if U(z.args[0]) == cur]
            c.check("async", f.name, len(r) == 1 and r[0] > i, "release", e.loc, "the handle of a piece of work is released %d times after it ran" % len(r), q.trace())
            # its successor was read before the handle could be reused
            nx = [k for k, z in enumerate(q.ev) if z.k == "load" and is_fld(z.addr, H, "next") and base(z.addr) == cur]
            c.check("async", f.name, bool(nx) and (not r or nx[0] < r[0]), "next", e.loc, "the next piece of work is read from a released handle", q.trace())
            cur = ("ld", ("fld", cur, H, "next"), 0)
        fin = any(pr == "eq" and U(a) == cur and const(b) == 0 for pr, a, b, _ in known(q))
        c.check("async", f.name, fin, "rest", q.end_loc(), "stops before all queued work has run", q.trace())
    c.need(n >= 2, "global_async_queue_process_cb: no work run")
    # free list
    f = p.need("acquire_async_handle")
    c.unit(f.name)
    for q in x.paths(f, vn=True):
        if q.dead or null_used(q):
            continue
        r = [e for e in q.ev if e.k == "ret" and e.depth == 0][-1]
        lk = [i for i, z in calls(q, "pthread_mutex_lock") if is_fld(z.args[0], None, "freelist_lock")]
        ul = [i for i, z in calls(q, "pthread_mutex_unlock") if is_fld(z.args[0], None, "freelist_lock")]
        acc = [i for i, z in enumerate(q.ev) if z.k in ("load", "store") and strip_casts(z.addr)[0] == "fld" and strip_casts(z.addr)[3] in ("freelist", "freelist_count")]
        c.check("async", f.name, len(lk) == len(ul) == 1 and all(lk[0] < i < ul[0] for i in acc), "freelist", q.end_loc(), "the free list is used outside its lock", q.trace())
        v = U(r.val)
        if v[0] == "call" and v[1] in ("malloc", "calloc"):
            z = [e for i, e in calls(q, v[1])][-1]
            c.check("async", f.name, const(z.args[-1]) == 40 and not [e for _, e in calls_store(q, "freelist")], "alloc", q.end_loc(), "a fresh handle is too small or the free list is changed", q.trace())
        else:
            hd = [e for _, e in calls_store(q, "freelist")]
            ok = key_of(r.val) and key_of(r.val)[1] == "freelist" and len(hd) == 1 and loaded(hd[0].val, "next") == v
            c.check("async", f.name, bool(ok), "unlink", q.end_loc(), "the handle handed out stays on the free list: two waiters share it", q.trace())
            ct = [e for _, e in calls_store(q, "freelist_count")]
            c.check("async", f.name, len(ct) == 1 and linear(ct[0].val)[1] == -1, "count", q.end_loc(), "the free list's count is not decremented", q.trace())
            c.check("async", f.name, any(pr in ("sgt", "sge", "ne", "ugt") and key_of(a) and key_of(a)[1] in ("freelist_count", "freelist") for pr, a, b, _ in known(q)), "empty", q.end_loc(), "a handle is taken from an empty free list", q.trace())
    f = p.need("release_async_handle")
    c.unit(f.name)
    for q in x.paths(f, vn=True):
        if q.dead:
            continue
        fr = [e for _, e in calls(q, "free") if strip_casts(e.args[0]) == ("a", 0)]
        hd = [e for _, e in calls_store(q, "freelist")]
        nx = [e for _, e in stores(q, H, "next") if base(e.addr) == ("a", 0)]
        ct = [e for _, e in calls_store(q, "freelist_count")]
        ok = (len(fr) == 1 and not hd and not ct) or (not fr and len(hd) == 1 and strip_casts(hd[0].val) == ("a", 0) and len(nx) == 1 and key_of(nx[0].val) and key_of(nx[0].val)[1] == "freelist" and len(ct) == 1 and linear(ct[0].val)[1] == 1)
        c.check("async", f.name, ok, "give back", q.end_loc(), "the handle is neither freed nor put on the free list exactly once", q.trace())
        lk = [i for i, z in calls(q, "pthread_mutex_lock") if is_fld(z.args[0], None, "freelist_lock")]
        ul = [i for i, z in calls(q, "pthread_mutex_unlock") if is_fld(z.args[0], None, "freelist_lock")]
        acc = [i for i, z in enumerate(q.ev) if z.k in ("load", "store") and strip_casts(z.addr)[0] == "fld" and strip_casts(z.addr)[3] in ("freelist", "freelist_count")]
        c.check("async", f.name, len(lk) == len(ul) == 1 and all(lk[0] < i < ul[0] for i in acc), "freelist", q.end_loc(), "the free list is used outside its lock", q.trace())
    # sleeping
    f = p.need("uv_async_sleep_register")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        ts = calls(q, "uv_timer_start")
        c.check("async", f.name, len(ts) == 1 and fnname(ts[0][1].args[1]) == "sleep_timer_cb" and strip_casts(ts[0][1].args[2]) == ("a", 1) and const(ts[0][1].args[3]) == 0, "sleep", q.end_loc(),
                "the sleeping coroutine's timer is not started once with the requested delay", q.trace())
        if ts:
            d = [e for i, e in enumerate(q.ev) if e.k == "store" and i < ts[0][0] and is_fld(e.addr, None, "data") and base(e.addr) == U(ts[0][1].args[0]) and strip_casts(e.val) == ("a", 0)]
            c.check("async", f.name, len(d) == 1, "sleeper", q.end_loc(), "the timer does not know the coroutine it wakes", q.trace())
    f = p.need("sleep_timer_cb")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        r = [e for _, e in calls(q, "co_ready") if loaded(e.args[0], "data") == ("a", 0)]
        c.check("async", f.name, len(r) == 1, "wake", q.end_loc(), "the sleeper is made ready %d times" % len(r), q.trace())
        cl = [e for _, e in calls(q, "uv_close") if strip_casts(e.args[0]) == ("a", 0)]
        c.check("async", f.name, len(cl) == 1, "close", q.end_loc(), "the timer is closed %d times" % len(cl), q.trace())
    f = p.need("rt_coroutine_sleep")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        s = calls(q, "global_waiting_send")
        ok = len(s) == 1 and fnname(s[0][1].args[0]) == "uv_async_sleep_register" and U(s[0][1].args[1])[:2] == ("call", "coroutine_get") and strip_casts(s[0][1].args[2]) == ("a", 0)
        c.check("async", f.name, ok, "sleep", q.end_loc(), "sleeping does not wait once for the requested time", q.trace())


def calls_store(q, f):
    return [(i, e) for i, e in enumerate(q.ev) if e.k == "store" and is_fld(e.addr, None, f)]


def loopown(c, p, x):
    f = p.need("global_loop_run")
    c.unit(f.name)
    n = 0
    for q in x.paths(f):
        if q.dead:
            continue
        cas = [(i, e) for i, e in enumerate(q.ev) if e.k == "cas" and is_fld(e.addr, None, "loop_owner") and const(e.args[0]) == 0 and const(e.args[1]) not in (0, None)]
        won = [(i, e) for i, e in cas if cas_success(q, e)]
        run = calls(q, "uv_run")
        tm = calls(q, "uv_timer_start")
        rel = [(i, e) for i, e in enumerate(q.ev) if e.k == "store" and is_fld(e.addr, None, "loop_owner")]
        if not won:
            c.check("loopown", f.name, not run and not tm and not rel, "foreign", q.end_loc(), "the event loop is used by a thread that does not own it", q.trace())
            continue
        n += 1
        c.check("loopown", f.name, len(run) == 1 and run[0][0] > won[0][0] and all(won[0][0] < i for i, _ in tm), "run", q.end_loc(), "the owner runs the event loop %d times" % len(run), q.trace())
        c.check("loopown", f.name, len(rel) == 1 and const(rel[0][1].val) == 0 and run and rel[0][0] > run[-1][0], "release", q.end_loc(), "the ownership of the event loop is not given back after running it: no thread handles events any more", q.trace())
        # blocking only with a limit
        if run and const(run[0][1].args[1]) in (0, p.enum("UV_RUN_ONCE")) and const(run[0][1].args[1]) != p.enum("UV_RUN_NOWAIT"):
            c.check("loopown", f.name, len(tm) == 1 and tm[0][0] < run[0][0] and strip_casts(tm[0][1].args[2]) == ("a", 0), "bounded", q.end_loc(), "the event loop blocks without a limit: coroutines queued meanwhile are not run", q.trace())
            c.check("loopown", f.name, const(run[0][1].args[1]) == p.enum("UV_RUN_ONCE"), "once", q.end_loc(), "the event loop runs until nothing is left to wait for", q.trace())
        lt = [(pr, const(b)) for pr, a, b, _ in known(q) if strip_casts(a) == ("a", 0)]
        if run and ("eq", 0) in lt:
            c.check("loopown", f.name, const(run[0][1].args[1]) == p.enum("UV_RUN_NOWAIT"), "nowait", q.end_loc(), "the loop blocks although coroutines are waiting to run", q.trace())
    c.need(n >= 2, "global_loop_run: no owner path")
    for g in p.unique():
        if not g.file.startswith("runtime/"):
            continue
        for i in g.calls():
            if i.callee == "uv_run":
                a = static_expr(g, i.ops[0])
                if any(s == ("g", "global_loop") for s in subexprs(a)):
                    c.check("loopown", g.name, g.name == "global_loop_run", "owner", i.loc, "the shared event loop is run outside its ownership protocol")


def result(c, p, x):
    f = p.need("rt_coroutine_return")
    c.unit(f.name)
    k = 0
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        k += 1
        cp = [e for e in q.ev if is_copy(e)]
        ok = len(cp) == 1 and key_of(cp[0].args[0]) == ("n_future_t", "result") and strip_casts(cp[0].args[1]) == ("a", 0) and U(cp[0].args[2])[0] == "ld" and key_of(cp[0].args[2]) == ("n_future_t", "size")
        c.check("result", f.name, ok, "copy", q.end_loc(), "the result is not copied completely into the future of the running coroutine", q.trace())
        if ok:
            fut = base(strip_casts(cp[0].args[0])[1])
            c.check("result", f.name, fut[0] == "ld" and is_fld(fut[1], "coroutine_t", "future") and fut[1][1][:2] == ("call", "coroutine_get") and base(strip_casts(cp[0].args[2])[1]) == fut, "own", q.end_loc(),
                    "the result goes to the future of another coroutine", q.trace())
    c.need(k >= 1, "rt_coroutine_return: no path")


def reclaim(c, p, x):
    D = ST(p, "DEAD")
    n = 0
    for f in p.unique():
        if not any(i.callee == "coroutine_free" for i in f.calls()) or f.name == "processor_free":
            continue
        c.unit(f.name)
        for site in [i for i in f.calls() if i.callee == "coroutine_free"]:
            # walk from the function's start; long functions: stop at the site
            for q in Walker(p, vn=True, loops=1, max_paths=60000).paths(f):
                for i, e in calls(q, "coroutine_free"):
                    if e.ins is not site:
                        continue
                    n += 1
                    co = U(e.args[0])
                    dd = [pr == "eq" for pr, a, b, z in known(q, i) if loaded(a, "status") == co and const(b) == D and pr in ("eq", "ne")]
                    c.check("reclaim", f.name, bool(dd) and dd[-1], "dead", e.loc, "a coroutine is reclaimed that is not known to be dead", q.trace())
                    node = co[1][1] if co[0] == "ld" and co[1][0] == "fld" else None
                    rm = [k for k, z in calls(q, "rt_linked_fixalloc_remove") if is_fld(z.args[0], "n_processor_t", "co_list") and U(z.args[1]) == node]
                    c.check("reclaim", f.name, len(rm) == 1, "unlist", e.loc, "a reclaimed coroutine stays in the list of all coroutines", q.trace())
                    use = [z for k, z in enumerate(q.ev) if k > i and z.k in ("load", "store") and strip_casts(z.addr)[0] == "fld" and base(z.addr) == co and strip_casts(z.addr)[2] == "coroutine_t" and z.k == "store"]
                    c.check("reclaim", f.name, not use, "after", e.loc, "a reclaimed coroutine is written to", q.trace())
                    ps = [z for k, z in pushes(q) if U(z.args[1]) == co]
                    c.check("reclaim", f.name, not ps, "requeue", e.loc, "a dead coroutine is queued", q.trace())
    c.need(n >= 1, "no site reclaims coroutines")
    f = p.need("coroutine_free")
    c.unit(f.name)
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        lk = [i for i, z in calls(q, "mutex_lock") if strip_casts(z.args[0]) == ("g", "cp_alloc_locker")]
        ul = [i for i, z in calls(q, "mutex_unlock") if strip_casts(z.args[0]) == ("g", "cp_alloc_locker")]
        fr = [i for i, z in calls(q, "fixalloc_free") if strip_casts(z.args[0]) == ("g", "coroutine_alloc") and strip_casts(z.args[1]) == ("a", 0)]
        c.check("reclaim", f.name, len(lk) == len(ul) == len(fr) == 1 and lk[0] < fr[0] < ul[0], "free", q.end_loc(), "the coroutine is given back %d times under the allocator's lock" % len(fr), q.trace())


def mainco(c, p, x):
    fs = [g for g in p.unique() if any(i.callee == "sched_run" for i in g.calls())]
    c.need(len(fs) == 1, "%d functions run the scheduler" % len(fs))
    f = fs[0]
    c.unit(f.name)
    n = 0
    MAIN, DIR = 1 << p.enum("CO_FLAG_MAIN"), 1 << p.enum("CO_FLAG_DIRECT")
    for q in Walker(p, vn=True, loops=1).paths(f):
        if q.dead:
            continue
        nw = calls(q, "rt_coroutine_new")
        if not nw:
            c.check("main", f.name, len(calls(q, "main.main")) == 1, "direct", q.end_loc(), "the program's main function is not called", q.trace())
            continue
        n += 1
        ds, sr = calls(q, "rt_coroutine_dispatch"), calls(q, "sched_run")
        e = nw[0][1]
        ok = len(nw) == 1 and fnname(e.args[0]) == "main.main" and (const(e.args[1]) or 0) & MAIN and (const(e.args[1]) or 0) & DIR
        c.check("main", f.name, bool(ok), "main", e.loc, "the main function is not started as the main coroutine", q.trace())
        c.check("main", f.name, len(ds) == 1 and U(ds[0][1].args[0]) == U(e.res) and len(sr) == 1 and ds[0][0] < sr[0][0], "run", q.end_loc(), "the scheduler does not run the main coroutine", q.trace())
        r = [z for z in q.ev if z.k == "ret" and z.depth == 0]
        c.check("main", f.name, bool(r) and const(r[-1].val) == 0, "status", q.end_loc(), "a program that ends normally reports failure", q.trace())
    c.need(n >= 1, "runtime_main: no path starts the scheduler")


def layout(c, p):
    """the future is one object seen from both sides"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    t = re.sub(r"//[^\n]*", "", open(os.path.join(repo, "std/builtin/coroutine.n")).read())
    m = re.search(r"type\s+future_t<T>\s*=\s*struct\s*\{(.*?)\}", t, re.S)
    c.need(m, "future_t not found")
    iface = p.structs["n_interface_t"]["size"]
    size = {"i64": 8, "int": 8, "anyptr": 8, "ptr<T>": 8, "throwable?": 8 + iface}
    off, want = 0, []
    for ln in m.group(1).split("\n"):
        w = ln.split()
        if len(w) < 2:
            continue
        c.need(w[0] in size, "unknown member type %s of future_t" % w[0])
        want.append((w[1], off))
        off += size[w[0]]
    st = p.structs["n_future_t"]
    have = {x[0]: x[1] for x in st["m"]}
    for nm, o in want:
        cn = {"co": "await_co"}.get(nm, nm)
        c.check("library", "n_future_t", have.get(cn) == o, "layout:" + nm, "runtime/runtime.h", "the runtime finds the member %s of a future at byte %s, the compiled program at %d" % (nm, have.get(cn), o))
    c.check("library", "n_future_t", st["size"] == off, "layout", "runtime/runtime.h", "the runtime takes a future to be %d bytes, the compiled program %d" % (st["size"], off))


def library(c):
    repo = os.environ.get("VERIF_REPO", "/repo")
    t = open(os.path.join(repo, "std/builtin/coroutine.n")).read()
    t = re.sub(r"//[^\n]*", "", t)
    for fn in ("await", "await_void"):
        m = re.search(r"fn\s+future_t<T>\.%s\s*\([^)]*\)[^{]*\{(.*?)\n\}" % fn, t, re.S)
        c.need(m, "future_t.%s not found" % fn)
        c.unit("future_t.%s" % fn)
        b = m.group(1)
        w = [x.start() for x in re.finditer(r"coroutine_await\s*\(\s*self\.co\s*\)", b)]
        err = [x.start() for x in re.finditer(r"self\.error\s+is\s+throwable", b)]
        thr = [x.start() for x in re.finditer(r"\bthrow\b", b)]
        ret = [x.start() for x in re.finditer(r"\breturn\b", b)]
        res = [x.start() for x in re.finditer(r"self\.result", b)]
        c.check("library", fn, len(w) == 1 and len(err) >= 1 and w[0] < err[0], "wait", "std/builtin/coroutine.n", "the coroutine is not awaited before its error is looked at")
        c.check("library", fn, len(thr) >= 1 and len(err) >= 1 and err[0] < thr[0], "raise", "std/builtin/coroutine.n", "the error of the coroutine is not raised again")
        c.check("library", fn, all(r > (err[0] if err else 0) for r in ret) and (fn == "await_void" or (len(res) >= 1 and res[0] > w[0] if w else False)), "result", "std/builtin/coroutine.n", "the result is taken before the coroutine ended")
    m = re.search(r"pub\s+fn\s+async<T>\s*\([^)]*\)[^{]*\{(.*?)\n\}", t, re.S)
    c.need(m, "async not found")
    b = m.group(1)
    c.check("library", "async", re.search(r"fu\.size\s*=\s*@sizeof\(T\)", b) and len(re.findall(r"coroutine_async\s*\(", b)) == 1, "async", "std/builtin/coroutine.n", "the future is not sized for the result, or the work is not started exactly once")
    c.check("library", "async", re.search(r"gc_malloc\(\s*hash\s*\)", b) and re.search(r"reflect_hash\(T\)", b) and b.find("gc_malloc") < b.find("coroutine_async"), "result", "std/builtin/coroutine.n", "the future has no room for the result before the work starts")
    c.check("library", "async", not re.search(r"fu\.co\s*=", b[b.find("coroutine_async("):] if "coroutine_async(" in b else "") and not re.search(r"fu\.co\s*=\s*utils\.coroutine_async", b), "co", "std/builtin/coroutine.n",
            "the coroutine is entered in the future after it may already have ended")
    u = open(os.path.join(repo, "std/co/utils.n")).read()
    for lk, fn in (("rt_coroutine_async", "coroutine_async"), ("rt_coroutine_return", "coroutine_return"), ("rt_coroutine_await", "coroutine_await")):
        c.check("library", fn, re.search(r"#linkid\s+%s\s+pub\s+fn\s+%s\b" % (lk, fn), u), "bind", "std/co/utils.n", "%s is not bound to %s" % (fn, lk))


main("R12", TECH, body)
