"""R06: a collection cycle runs its phases in order, scans every root set and frees only what is unmarked."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *

TECH = ("typestate analysis of the collection cycle (world stopped/running x tracking on/off x phase) over every path of the driver; path rules on the stop protocol, on every root scanner, "
        "on the mark loop, on allocation while marking and on sweeping (LLVM IR)")


def U(e):
    return unversion(strip_all(e))


def calls(q, *names):
    return [i for i, e in enumerate(q.ev) if e.k == "call" and e.name in names]


def nonzero(q, pred, upto=None):
    """truth of the first expression on the path that satisfies pred: True/False/None (last test wins)"""
    r = None
    for e in q.ev[:upto]:
        if e.k != "assume":
            continue
        x, t = strip_casts(e.cond), bool(e.truth)
        while True:
            if x[0] == "not":
                x, t = strip_casts(x[1]), not t
            elif x[0] == "cmp" and x[1] in ("eq", "ne") and const(x[3]) == 0:
                x, t = strip_casts(x[2]), t if x[1] == "ne" else not t
            elif x[0] == "cmp" and x[1] in ("ugt", "sgt") and const(x[3]) == 0:
                x = strip_casts(x[2])
            else:
                break
        if pred(U(x)):
            r = t
    return r


def is_call(x, *names):
    return x[0] == "call" and x[1] in names


# ---------------------------------------------------------------- the driver
ROOTS = ("inject_gc_work_coroutine", "scan_global", "scan_pool")
END = ("gc_mark_done", "flush_mcache", "mcentral_sweep", "flush_pool", "gcbits_arenas_epoch")
ORDER = (("gc_mark_done", "mcentral_sweep"), ("flush_mcache", "mcentral_sweep"), ("mcentral_sweep", "gcbits_arenas_epoch"))


def driver(c, p):
    f = p.need("runtime_gc")
    c.unit(f.name)
    keep = set(ROOTS + END) | {"processor_all_need_stop", "processor_all_wait_safe", "processor_all_start", "wait_all_gc_work_finished", "gc_barrier_start", "gc_barrier_stop", "gc_barrier_get"}
    for n in keep - {"gc_barrier_get"}:
        p.need(n)
    off = p.enum("GC_STAGE_OFF")
    full = early = 0
    for q in Walker(p, inline=lambda g: g.name not in keep and (g.file or "").startswith("runtime/") and g.name.startswith(("runtime_gc", "gc_", "rt_gc")) or (g.internal and g.file == f.file and g.name not in keep), vn=False, blocks=True, max_paths=4000).paths(f):
        if q.dead:
            continue
        tr = q.trace()
        asked = safe = barrier = waited = False
        counted = 0
        did = []
        stage = None
        for i, e in enumerate(q.ev):
            if e.k == "store":
                k = key_of(e.addr)
                if U(e.addr) == ("g", "gc_stage"):
                    stage = const(e.val)
                if k and k[1] == "gc_count":
                    counted += 1
                    a, b = linear(strip_casts(e.val))
                    c.check("phase", f.name, b == 1 and len(a) == 1, "count", e.loc, "the cycle number does not grow by one", tr)
                    c.check("phase", f.name, not asked and not did, "count-first", e.loc, "the cycle number changes after the cycle began", tr)
                continue
            if e.k == "assume":
                x, t = strip_casts(e.cond), bool(e.truth)
                if x[0] == "not":
                    x, t = strip_casts(x[1]), not t
                if x[0] == "cmp" and const(x[3]) == 0 and x[1] in ("eq", "ne"):
                    x, t = strip_casts(x[2]), t if x[1] == "ne" else not t
                if is_call(x, "processor_all_wait_safe"):
                    safe = asked and t
                continue
            if e.k != "call":
                continue
            n = e.name
            if n == "processor_all_need_stop":
                asked, safe = True, False
            elif n == "processor_all_start":
                asked = safe = False
                did.append(n)
            elif n == "gc_barrier_start":
                c.check("phase", f.name, safe, "barrier-on", e.loc, "reference tracking is enabled while mutators run", tr)
                barrier = True
            elif n == "gc_barrier_stop":
                c.check("phase", f.name, safe and "mcentral_sweep" in did and "gcbits_arenas_epoch" in did, "barrier-off", e.loc, "reference tracking is disabled before the sweep is settled or while mutators run", tr)
                barrier = False
                did.append(n)
            elif n in ROOTS:
                c.check("phase", f.name, safe and barrier and counted == 1, "root:%s" % n, e.loc, "%s runs %s" % (n, "while mutators run" if not safe else "before reference tracking is on" if not barrier else "without a new cycle number"), tr)
                c.check("phase", f.name, n not in did, "once:%s" % n, e.loc, "%s runs twice in a cycle" % n, tr)
                did.append(n)
            elif n == "wait_all_gc_work_finished":
                c.check("phase", f.name, not asked and all(r in did for r in ROOTS) and barrier, "mark", e.loc, "marking is awaited %s" % ("while the world is stopped" if asked else "before all roots are taken"), tr)
                waited = True
            elif n in END:
                c.check("phase", f.name, safe and waited, "end:%s" % n, e.loc, "%s runs %s" % (n, "before marking finished" if not waited else "while mutators run"), tr)
                c.check("phase", f.name, barrier, "tracked:%s" % n, e.loc, "%s runs after reference tracking was disabled" % n, tr)
                for a, b in ORDER:
                    if n == b:
                        c.check("phase", f.name, a in did, "order:%s<%s" % (a, b), e.loc, "%s runs before %s" % (b, a), tr)
                did.append(n)
        c.check("restart", f.name, not asked, "restart", q.end_loc(), "the cycle ends with the world stopped", tr)
        c.check("restart", f.name, stage == off, "stage", q.end_loc(), "the cycle ends in a stage other than off", tr)
        if "mcentral_sweep" in did:
            full += 1
            for n in ROOTS + END + ("gc_barrier_stop",):
                c.check("phase", f.name, n in did, "missing:%s" % n, q.end_loc(), "a completed cycle never runs %s" % n, tr)
        else:
            early += 1
            c.check("phase", f.name, "gc_barrier_stop" not in did, "early-off", q.end_loc(), "an abandoned cycle stops reference tracking although objects stay marked", tr)
    c.need(full and early, "complete and abandoned cycles not found")


# ---------------------------------------------------------------- stop protocol
def protocol(c, p):
    for name, zero in (("processor_all_need_stop", False), ("processor_all_start", True)):
        f = p.need(name)
        c.unit(f.name)
        for q in Walker(p, inline=lambda g: False, vn=False).paths(f):
            if q.dead:
                continue
            v = [e.val for e in q.ev if e.k == "store" and mentions(U(e.addr), ("g", "global_safepoint"))]
            ok = bool(v) and (const(v[-1]) == 0) == zero
            c.check("stop", f.name, ok, "value", q.end_loc(), "%s leaves the stop request %s" % (name, "set" if zero else "unset"), q.trace())
    f = p.need("processor_all_wait_safe")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=False, loops=2).paths(f):
        if q.dead:
            continue
        r = const(strip_casts(q.ev[-1].val)) if q.ev[-1].val is not None else None
        s = nonzero(q, lambda x: is_call(x, "processor_all_safe"))
        if r is None:
            x = strip_casts(q.ev[-1].val)
            ok = is_call(U(x), "processor_all_safe")
        else:
            ok = r == 0 or s is True
        c.check("stop", f.name, ok, "wait", q.end_loc(), "the wait succeeds although a processor is not stopped", q.trace())
    for name, what in (("processor_all_safe", "stopped"), ("all_gc_work_finished", "finished")):
        f = p.need(name)
        c.unit(f.name)
        n = 0
        for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, loops=2, max_paths=4000).paths(f):
            if q.dead:
                continue
            r = q.ev[-1].val
            if const(strip_casts(r)) == 0:
                continue
            tr = q.trace()
            # every processor visited was excused
            cur = None
            for cp, x in visits(q):
                n += 1
                c.check("stop", f.name, excused(p, q, cp, x, what), "%s" % what, q.end_loc(), "a processor counts as %s although it is not" % what, tr)
        c.need(n >= 2, "loop of %s not found" % name)
    f = p.need("wait_all_gc_work_finished")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=False, loops=2).paths(f):
        if q.dead:
            continue
        s = nonzero(q, lambda x: is_call(x, "all_gc_work_finished"))
        c.check("stop", f.name, s is True, "wait", q.end_loc(), "the wait for marking ends although a processor still marks", q.trace())
    # a processor that stops announces the current request, waits until it is withdrawn and cannot wait for a later one
    f = p.need("processor_run")
    c.unit(f.name)
    n = m = 0
    for q in Walker(p, inline=lambda g: False, vn=False, blocks=True, loops=2, max_paths=60000).paths(f):
        if q.dead:
            continue
        stopped = False      # announced and not yet released
        nz = True            # the announced request was found set since the announcement
        looked = True        # the request was looked at since the last coroutine ran
        for i, e in enumerate(q.ev):
            if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "in_stw":
                n += 1
                c.check("stop", f.name, field(e.val) == "safepoint", "announce", e.loc, "a stopping processor announces %s" % show(U(e.val)), q.trace())
                stopped, nz = True, False
            elif e.k == "assume":
                x, t = strip_casts(e.cond), bool(e.truth)
                if x[0] == "not":
                    x, t = strip_casts(x[1]), not t
                y = (x[1], x[2], x[3]) if x[0] == "cmp" else ("ne", x, ("c", 0))
                fa, fb = field(y[1]), field(y[2])
                if "safepoint" in (fa, fb):
                    looked = True
                if {fa, fb} == {"in_stw", "safepoint"} and y[0] in ("eq", "ne") and (y[0] == "ne") == t:
                    stopped = False
                if fa in ("in_stw", "safepoint") and const(y[2]) == 0:
                    set_ = t == (y[0] in ("ne", "ugt", "sgt"))
                    if set_:
                        nz = True
                    else:
                        stopped = False
            elif e.k == "call" and e.name in ("usleep", "uv_sleep", "sched_yield") and stopped:
                m += 1
                c.check("stop", f.name, nz, "release", e.loc, "a processor that reads a withdrawn request waits for the next collection", q.trace())
            elif e.k == "call" and e.name == "coroutine_resume":
                c.check("stop", f.name, not stopped, "wait-loop", e.loc, "after announcing the stop the processor runs a coroutine while the request stands", q.trace())
                c.check("stop", f.name, looked, "between", e.loc, "coroutines are run in a row without looking at the stop request", q.trace())
                looked = False
    c.need(n >= 1 and m >= 1, "stop of processor_run not found")


def visits(q):
    """processors a path looked at: distinct bases of the tested processor fields, with the tests"""
    out = {}
    for e in q.ev:
        if e.k != "assume":
            continue
        for x in subexprs(e.cond):
            if isinstance(x, tuple) and x[:1] == ("fld",) and x[2] == "n_processor_t" and x[3] in ("thread_waked", "status", "in_stw", "gc_work_finished"):
                out.setdefault(U(x[1]), []).append(e)
    return list(out.items())


def excused(p, q, base, evs, what):
    ex = p.enum("P_STATUS_EXIT")
    for e in evs:
        x, t = strip_casts(e.cond), bool(e.truth)
        if x[0] == "not":
            x, t = strip_casts(x[1]), not t
        if x[0] == "cmp":
            a, b, pr = x[2], x[3], x[1]
        else:
            a, b, pr = x, ("c", 0), "ne"
        fa, fb = field(a), field(b)
        if const(b) == 0 and pr in ("eq", "ne") and fa == "thread_waked" and (pr == "eq") == t:
            return True
        if what == "stopped":
            if fa == "status" and const(b) == ex and (pr == "eq") == t and pr in ("eq", "ne"):
                return True
            if {fa, fb} == {"in_stw", "safepoint"} and pr in ("eq", "ne") and (pr == "eq") == t:
                return True
        else:
            if fa == "gc_work_finished" and fb == "gc_count" and (pr in ("ult", "slt", "ne") and not t or pr in ("uge", "sge", "eq") and t):
                return True
            if fb == "gc_work_finished" and fa == "gc_count" and (pr in ("ugt", "sgt", "ne") and not t or pr in ("ule", "sle", "eq") and t):
                return True
    return False


def field(e):
    e = U(e)
    while e[0] == "cast":
        e = e[2]
    if e[0] == "ld":
        a = U(e[1])
        if mentions(a, ("g", "global_safepoint")):
            return "safepoint"
        if a[0] == "fld":
            return a[3]
    return None


def conds(f):
    """[(block, condition expression, true successor, false successor)] of the conditional branches"""
    for i in f.insts():
        if i.op == "br" and i.ops:
            yield i.bb, U(static_expr(f, i.ops[0])), i.x[0], i.x[1], i


# ---------------------------------------------------------------- roots
def inserted(q, pred, upto=None):
    return any(e.k == "call" and e.name in ("insert_gc_worklist", "rt_linked_fixalloc_push") and len(e.args) > 1 and pred(U(e.args[1])) for e in q.ev[:upto])


def not_object(q, pred):
    """the path found the value null or outside the collected heap"""
    for pr, a, b, e in known(q, len(q.ev)):
        if pr == "eq" and const(b) == 0:
            a = U(a)
            if pred(a) or (a[0] == "call" and a[1] in ("span_of", "in_heap") and pred(U(a[3]))):
                return True
    return False


def is_load_of(*names):
    """a load through the given field path (innermost last)"""
    def t(x):
        x = U(x)
        while x[0] == "cast":
            x = U(x[2])
        if x[0] != "ld":
            return False
        a, got = U(x[1]), []
        while a[0] == "fld":
            got.append(a[3])
            a = U(a[1])
        got.reverse()
        # a member at offset zero is its own struct
        return got[:len(names)] == list(names) or got == [n for n in names][:len(got)] and len(got) >= 1 and len(got) >= len(names) - 1
    return t


def coroutine_roots(c, p):
    f = p.need("gc_work")
    c.unit(f.name)
    keep = {"span_of", "scan_stack", "insert_gc_worklist", "coroutine_free", "rt_linked_fixalloc_remove", "co_yield_runnable", "handle_gc_worklist", "processor_get", "coroutine_get", "rt_linked_fixalloc_push"}
    dead = p.enum("CO_STATUS_DEAD")
    n = 0
    for q in Walker(p, inline=lambda g: g.internal and g.name not in keep and g.file == f.file, vn=False, blocks=True, loops=1, max_paths=60000).paths(f):
        if q.dead:
            continue
        tr = q.trace()
        visited = False
        alive = None
        for e in q.ev:
            if e.k == "assume":
                x = strip_casts(e.cond)
                if x[0] == "not":
                    x = strip_casts(x[1])
                if x[0] == "cmp" and field(x[2]) == "status" and const(x[3]) == dead:
                    alive = bool(e.truth) != (x[1] == "eq") if x[0] != "not" else None
                    if strip_casts(e.cond)[0] == "not":
                        alive = not alive
        scan = calls(q, "scan_stack")
        marks = [i for i, e in enumerate(q.ev) if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "gc_black"]
        for i in marks:
            c.check("roots", f.name, any(j < i for j in scan), "black", q.ev[i].loc, "a coroutine counts as scanned although its stack was not", tr)
            c.check("roots", f.name, field(q.ev[i].val) == "gc_count", "black-value", q.ev[i].loc, "a coroutine is recorded as scanned in another cycle", tr)
        if alive is True:
            n += 1
            for fld_ in ("fn", "arg", "future"):
                ok = inserted(q, lambda x: field(x) == fld_) or not_object(q, lambda x: field(x) == fld_)
                c.check("roots", f.name, ok, "root:%s" % fld_, q.end_loc(), "the %s of a coroutine is not taken as a root" % fld_, tr)
            uninit = any(pr == "eq" and const(b) == 0 and field(a) == "inited" for pr, a, b, e in known(q, len(q.ev)))
            done = any(pr in ("eq", "uge", "sge") and field(a) == "gc_black" and field(b) == "gc_count" or pr in ("eq", "ule", "sle") and field(b) == "gc_black" and field(a) == "gc_count" for pr, a, b, e in known(q, len(q.ev)))
            c.check("roots", f.name, bool(scan) or uninit or done, "stack", q.end_loc(), "the stack of a live coroutine is not scanned", tr)
            if scan and not uninit and not done:
                c.check("roots", f.name, bool(marks), "unmarked", q.end_loc(), "a scanned coroutine is not recorded as scanned", tr)
        # the worklist is drained before the processor reports completion
        fin = [i for i, e in enumerate(q.ev) if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "gc_work_finished"]
        hw = calls(q, "handle_gc_worklist")
        c.check("roots", f.name, bool(fin) and bool(hw) and hw[-1] < fin[0] and field(q.ev[fin[-1]].val) == "gc_count", "finish", q.end_loc(), "a processor reports its marking finished before its worklist is drained", tr)
    c.need(n >= 4, "coroutine loop of gc_work not found")
    f = p.need("handle_gc_worklist")
    c.unit(f.name)
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=False, blocks=True, loops=2, max_paths=20000).paths(f):
        if q.dead:
            continue
        m += 1
        pops = calls(q, "rt_linked_fixalloc_pop")
        hs = calls(q, "handle_gc_ptr")
        c.check("mark", f.name, len(pops) == len(hs) and all(any(mentions(q.ev[h].args[1], q.ev[i].res) or U(q.ev[h].args[1]) == U(q.ev[i].res) for h in hs) for i in pops), "each", q.end_loc(), "an entry of the worklist is dropped", q.trace())
        last = max(pops) if pops else -1
        empty = [e for pr, a, b, e in known(q, len(q.ev)) if pr in ("eq", "ule", "sle") and const(b) == 0 and field(a) == "count"]
        c.check("mark", f.name, bool(empty), "drained", q.end_loc(), "marking stops with entries left in the worklist", q.trace())
    c.need(m >= 2, "paths of handle_gc_worklist not found")


def stack_roots(c, p):
    f = p.need("scan_stack")
    c.unit(f.name)
    keep = {"span_of", "insert_gc_worklist", "find_fn", "fetch_addr_value", "bitmap_test", "scan_saved_stack_conservative", "processor_get"}
    n = 0
    kinds = set()
    inl = lambda g: g.name not in keep and g.internal and g.file == f.file
    # what does not depend on the frames: loops are passed over
    for q in Walker(p, inline=inl, vn=True, blocks=True, loops=0, max_paths=120000).paths(f):
        if q.dead:
            continue
        n += 1
        tr = None
        pos = lambda *nm: is_load_of(*nm)
        has_err = nonzero(q, lambda x: field(x) == "has_error")

        def need(label, leaf, excuse=False):
            g = lambda x: field(x) == leaf and (leaf != "data" or "traces" in names(x)) and (leaf != "ptr" or "save_stack" in names(x))
            ok = excuse or inserted(q, g) or not_object(q, g)
            c.check("stack", f.name, ok, label, q.end_loc(), "the %s of a coroutine is not taken as a root" % label, q.trace() if not ok else None)

        need("pending error methods", "methods", has_err is False)
        ev = lambda x: "error" in names(x) and field(x) != "methods"
        ok = has_err is False or inserted(q, ev) or not_object(q, ev)
        c.check("stack", f.name, ok, "pending error value", q.end_loc(), "the pending error of a coroutine is not taken as a root", q.trace() if not ok else None)
        need("traces", "data")
        need("waiting record", "waiting")
        small = any(pr in ("ule", "sle", "ult", "slt", "eq") and field(a) == "sz" and const(b) is not None for pr, a, b, e in known(q, len(q.ev)))
        need("saved stack", "ptr", small)
        rtfn = any(pr == "ne" and const(b) == 0 and mentions_field(a, "flag") for pr, a, b, e in known(q, len(q.ev)))
        novalid = any(pr == "eq" and const(b) == 0 and field(a) == "valid_sz" for pr, a, b, e in known(q, len(q.ev)))
        looked = bool(calls(q, "scan_saved_stack_conservative", "find_fn"))
        ok = rtfn or novalid or looked
        c.check("stack", f.name, ok, "frames", q.end_loc(), "the frames of a started coroutine are not scanned", q.trace() if not ok else None)
    # the frames, from the point where runtime functions are sorted out
    br = [i for i in f.insts() if i.op == "br" and i.ops and mentions_field(static_expr(f, i.ops[0]), "flag")]
    c.need(len(br) == 1, "start of the frame walk not found")
    m = 0
    for q in Walker(p, inline=inl, vn=True, pure=("span_of", "find_fn", "fetch_addr_value", "bitmap_test", "insert_gc_worklist", "rti_vec_access"), blocks=True, loops=1, max_paths=120000).paths(f, start=br[0]):
        if q.dead:
            continue
        m += 1
        rtfn = any(pr == "ne" and const(b) == 0 and mentions_field(a, "flag") for pr, a, b, e in known(q, len(q.ev)))
        novalid = any(pr == "eq" and const(b) == 0 and field(a) == "valid_sz" for pr, a, b, e in known(q, len(q.ev)))
        anyfound = any(pr == "ne" and const(b) == 0 and is_call(U(a), "find_fn") for pr, a, b, e in known(q, len(q.ev)))
        ok = rtfn or novalid or bool(calls(q, "scan_saved_stack_conservative")) or anyfound
        c.check("stack", f.name, ok, "unknown", q.end_loc(), "a stack without a known frame is not scanned", q.trace() if not ok else None)
        bits = [i for i in calls(q, "bitmap_test") if mentions_field(q.ev[i].args[0], "gc_bits_offset")]
        words_ = []
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "span_of" and is_call(U(e.args[0]), "fetch_addr_value"):
                v = U(e.args[0])
                t = nonzero(q, lambda x: x == U(e.res))
                kinds.add("word")
                words_.append((i, e, v))
                ok = t is False or inserted(q, lambda x: x == v)
                c.check("stack", f.name, ok, "word", e.loc, "a stack word that refers to a collected object is not taken as a root", q.trace() if not ok else None)
        for i in bits:
            if nonzero(q, lambda x: x == U(q.ev[i].res)) is not True:
                continue
            k = const(strip_casts(q.ev[i].args[1]))
            nxt = next((U(e.args[0]) for e in q.ev[i + 1:] if e.k == "call" and e.name == "fetch_addr_value"), None)
            after = [U(e.args[0]) for e in q.ev[i + 1:] if e.k == "call" and e.name == "fetch_addr_value"][1:]
            kinds.add("map")
            ok = nxt is not None and any(diff(nxt, a) == -8 * (k + 1) and diff(b, a) == 8 for a, b in zip(after, after[1:]))
            c.check("stack", f.name, ok, "slot", q.ev[i].loc, "word %s of a frame map is taken for another stack word" % k, q.trace() if not ok else None)
    c.need(m >= 10 and kinds == {"word", "map"}, "frame walk of scan_stack not found")
    c.need(n >= 20, "paths of scan_stack not found")
    f = p.need("scan_saved_stack_conservative")
    c.unit(f.name)
    words(c, p, f, "stack", 8)


def words(c, p, f, rule, step):
    """a conservative scan visits every word"""
    n = 0
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, loops=2, max_paths=4000).paths(f):
        if q.dead:
            continue
        offs = []
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "fetch_addr_value":
                offs.append(linear(strip_casts(e.args[0]))[1])
                t = nonzero(q, lambda x: x[0] == "call" and x[1] == "span_of" and U(x[3]) == U(e.res))
                n += 1
                c.check(rule, f.name, t is False or inserted(q, lambda x: x == U(e.res)), "%s:insert" % f.name, e.loc, "a word that refers to a collected object is not taken as a root", q.trace())
        c.check(rule, f.name, offs == [step * k for k in range(len(offs))], "%s:step" % f.name, q.end_loc(), "words at offsets %s are visited" % offs, q.trace())
    c.need(n >= 2, "loop of %s not found" % f.name)


def diff(a, b):
    (x, k), (y, m) = linear(strip_casts(a)), linear(strip_casts(b))
    return k - m if x == y else None


def names(e):
    return {x[3] for x in subexprs(U(e)) if isinstance(x, tuple) and x[:1] == ("fld",)}


def mentions_field(e, fld_):
    return fld_ in names(e)


def global_roots(c, p):
    f = p.need("scan_global")
    c.unit(f.name)
    n = 0
    ind = p.enum("STORAGE_KIND_IND")
    forms = set()
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, loops=2, max_paths=60000).paths(f):
        if q.dead:
            continue
        tr = None
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "fetch_addr_value":
                n += 1
                t = nonzero(q, lambda x: x[0] == "call" and x[1] == "span_of" and U(x[3]) == U(e.res))
                ok = t is False or inserted(q, lambda x: x == U(e.res))
                c.check("globals", f.name, ok, "word", e.loc, "a global that refers to a collected object is not taken as a root", q.trace() if not ok else None)
        gc = nonzero(q, lambda x: is_call(x, "is_gc_alloc"))
        got = calls(q, "fetch_addr_value")
        nsym = len([e for e in q.ev if e.k == "call" and e.name == "rt_find_rtype"])
        if nsym == 1 and gc is True:
            forms.add("word")
            c.check("globals", f.name, len(got) == 1, "reference", q.end_loc(), "a global reference is not looked at", q.trace())
        isind = any(pr == "eq" and field(a) == "storage_kind" and const(b) == ind for pr, a, b, e in known(q, len(q.ev)))
        if nsym == 1 and isind and gc is False:
            forms.add("compound")
            bits = [(e, nonzero(q, lambda x: x == U(e.res))) for e in q.ev if e.k == "call" and e.name == "bitmap_test"]
            ok = len(got) == len([1 for e, t in bits if t])
            c.check("globals", f.name, ok, "compound", q.end_loc(), "a pointer inside a global value is not looked at", q.trace() if not ok else None)
            idx = [const(strip_casts(e.args[1])) for e, t in bits]
            c.check("globals", f.name, idx == list(range(len(idx))), "bits", q.end_loc(), "words %s of a global value are looked at" % idx, q.trace())
        if nsym == 1:
            nb = [e for e in q.ev if e.k == "call" and e.name == "rt_find_rtype"]
            c.check("globals", f.name, gc is not None, "kinds", q.end_loc(), "the kind of a global is not looked at", q.trace())
    c.need(forms == {"word", "compound"} and n >= 3, "loops of scan_global not found")
    loop_bound(c, p, f, "globals", "rt_symdef_count")
    f = p.need("scan_pool")
    c.unit(f.name)
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, loops=1, max_paths=20000).paths(f):
        if q.dead:
            continue
        for e in q.ev:
            pass
        at = [e for e in q.ev if e.k == "assume" and any(field(x) == "linkco_count" for x in subexprs(e.cond) if isinstance(x, tuple))]
        inside = [e for e in at if in_loop(e)]
        pushed = inserted(q, lambda x: mentions_field(x, "linkco_cache"))
        if inside:
            m += 1
            c.check("globals", f.name, pushed, "pool", q.end_loc(), "an idle wait record is not taken as a root", q.trace() if not pushed else None)
        sp = [e for e in q.ev if e.k == "call" and e.name == "span_of" and field(e.args[0]) == "data"]
        for e in sp:
            m += 1
            t = nonzero(q, lambda x: x == U(e.res))
            ok = t is False or inserted(q, lambda x: x == U(e.args[0]))
            c.check("globals", f.name, ok, "strings", e.loc, "a pooled string is not taken as a root", q.trace() if not ok else None)
    c.need(m >= 2, "loops of scan_pool not found")


def in_loop(e):
    x, t = strip_casts(e.cond), bool(e.truth)
    if x[0] == "not":
        x, t = strip_casts(x[1]), not t
    if x[0] != "cmp":
        return False
    if field(x[3]) == "linkco_count":
        return t == (x[1] in ("slt", "ult", "ne"))
    if field(x[2]) == "linkco_count":
        return t == (x[1] in ("sgt", "ugt", "ne"))
    return False


def loop_bound(c, p, f, rule, glob):
    ok = any(x[0] == "cmp" and any(y == ("ld", ("g", glob)) or y == ("g", glob) for y in subexprs(x) if isinstance(y, tuple)) for bb, x, t, fl, i in conds(f))
    c.check(rule, f.name, ok, "%s:all" % f.name, f.loc, "not every global is visited")


# ---------------------------------------------------------------- marking, allocation, sweeping
def marking(c, p):
    f = p.need("handle_gc_ptr")
    c.unit(f.name)
    keep = {"span_of", "insert_gc_worklist", "bitmap_test", "bitmap_set", "mutex_lock", "mutex_unlock", "spanclass_has_ptr", "take_arena", "arena_bits_index", "fetch_addr_value"}
    n = 0
    for q in Walker(p, inline=lambda g: g.internal and g.file == f.file and g.name not in keep, vn=True, blocks=True, loops=2, max_paths=20000).paths(f):
        if q.dead:
            continue
        n += 1
        tr = q.trace()
        st = [i for i in calls(q, "bitmap_set") if field(q.ev[i].args[0]) == "gcmark_bits"]
        tested_ = [i for i in calls(q, "bitmap_test") if field(q.ev[i].args[0]) == "gcmark_bits"]
        black = any(nonzero(q, lambda x: x == U(q.ev[i].res)) is True for i in tested_[:1])
        locked, sect = False, 0
        held, where = [], set()
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "mutex_lock":
                locked, sect = True, sect + 1
            elif e.k == "call" and e.name == "mutex_unlock":
                locked = False
            elif i in st or i in tested_[:1]:
                held.append(locked)
                where.add(sect)
        c.check("mark", f.name, not locked and all(held) and len(where) == 1, "lock", q.end_loc(), "the mark of an object is tested and set outside the lock, or the lock is kept", tr)
        c.check("mark", f.name, black or len(st) == 1, "set", q.end_loc(), "an object is processed without being marked", tr)
        if black:
            continue
        scalar = nonzero(q, lambda x: is_call(x, "spanclass_has_ptr")) is False
        ptrs = [i for i in calls(q, "bitmap_test") if i not in tested_]
        fs = calls(q, "fetch_addr_value")
        if not scalar:
            want = [i for i in ptrs if nonzero(q, lambda x: x == U(q.ev[i].res)) is True]
            c.check("mark", f.name, len(fs) == len(want), "fields", q.end_loc(), "a pointer field of a marked object is not followed", tr)
            for i in fs:
                v = U(q.ev[i].res)
                t = nonzero(q, lambda x: x[0] == "call" and x[1] == "span_of" and U(x[3]) == v)
                c.check("mark", f.name, t is False or inserted(q, lambda x: x == v), "follow", q.ev[i].loc, "an object a marked object refers to is not queued", tr)
            for i in calls(q, "insert_gc_worklist"):
                a = U(q.ev[i].args[0])
                live = any(field(x) == "gc_work_finished" and field(b) == "gc_count" and pr in ("ult", "slt", "ne") for pr, x, b, e in known(q, i))
                c.check("mark", f.name, a == ("g", "global_gc_worklist") or live, "list", q.ev[i].loc, "a found object is queued on a list whose worker has finished", tr)
    c.need(n >= 6, "paths of handle_gc_ptr not found")
    f = p.need("gc_mark_done")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=False, blocks=True, loops=2, max_paths=2000).paths(f):
        if q.dead:
            continue
        pops = calls(q, "global_gc_worklist_pop")
        hs = calls(q, "handle_gc_ptr")
        c.check("mark", f.name, bool(pops) and len(hs) == len(pops) - 1 and all(U(q.ev[h].args[1]) == U(q.ev[i].res) for h, i in zip(hs, pops)), "rest", q.end_loc(), "an entry of the shared worklist is dropped at the end of marking", q.trace())
        z = nonzero(q, lambda x: pops and x == U(q.ev[pops[-1]].res))
        c.check("mark", f.name, z is False, "empty", q.end_loc(), "marking ends with entries left in the shared worklist", q.trace())
    f = p.need("rti_gc_malloc")
    c.unit(f.name)
    n = 0
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, max_paths=2000).paths(f):
        if q.dead:
            continue
        n += 1
        r = U(q.ev[-1].val)
        on = nonzero(q, lambda x: is_call(x, "gc_barrier_get") or x == ("ld", ("g", "gc_barrier")) or (x[0] == "ld" and x[1] == ("g", "gc_barrier")))
        mk = [i for i in calls(q, "mark_ptr_black") if U(q.ev[i].args[0]) == r]
        al = calls(q, "std_malloc", "large_malloc")
        gt = calls(q, "gc_barrier_get")
        c.check("alloc", f.name, on is False or bool(mk), "kept", q.end_loc(), "memory allocated while marking is not kept", q.trace())
        c.check("alloc", f.name, not gt or not al or gt[-1] > al[-1], "late", q.end_loc(), "whether marking is active is looked at before the memory is allocated", q.trace())
    c.need(n >= 2, "paths of rti_gc_malloc not found")
    f = p.need("mark_ptr_black")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        st = [i for i in calls(q, "bitmap_set") if field(q.ev[i].args[0]) == "gcmark_bits"]
        lk, ul = calls(q, "mutex_lock"), calls(q, "mutex_unlock")
        c.check("alloc", f.name, len(st) == 1 and bool(lk) and bool(ul) and lk[0] < st[0] < ul[-1] and len(lk) == len(ul), "mark", q.end_loc(), "an object is not marked under its span's lock", q.trace())


def sweeping(c, p):
    f = p.need("sweep_span")
    c.unit(f.name)
    keep = {"bitmap_test", "mheap_free_span", "gcbits_new", "free_mspan_meta", "take_sizeclass"}
    n = 0
    for q in Walker(p, inline=lambda g: g.internal and g.file == f.file and g.name not in keep, vn=True, pure=("bitmap_test", "take_sizeclass", "gcbits_new"), blocks=True, loops=2, max_paths=60000).paths(f):
        if q.dead:
            continue
        tr = None
        T = lambda: q.trace()
        marked = {}
        if contradictory(q, "bitmap_test"):
            continue
        for e in q.ev:
            if e.k == "call" and e.name == "bitmap_test":
                t = nonzero(q, lambda x: x == U(e.res))
                w = field(e.args[0])
                k = const(strip_casts(e.args[1]))
                if t is not None and w == "gcmark_bits":
                    marked[k] = t
                if w == "alloc_bits":
                    marked.setdefault((k, "alloc"), t)
        live = [k for k, v in marked.items() if not isinstance(k, tuple) and v]
        dead = [k for k, v in marked.items() if not isinstance(k, tuple) and not v]
        if None in live or None in dead:
            continue
        n += 1
        g = lambda name: [i for i, e in enumerate(q.ev) if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == name]
        ab, gb, ac = g("alloc_bits"), g("gcmark_bits"), g("alloc_count")
        ok = len(ab) == 1 and field(q.ev[ab[0]].val) == "gcmark_bits" and len(gb) == 1 and is_call(U(q.ev[gb[0]].val), "gcbits_new") and ab[0] < gb[0]
        c.check("sweep", f.name, ok, "bits", q.end_loc(), "after the sweep the allocated objects are not exactly the marked ones", T() if not ok else None)
        ok = len(ac) == 1 and const(strip_casts(q.ev[ac[0]].val)) == len(live)
        c.check("sweep", f.name, ok, "count", q.end_loc(), "after the sweep the span counts %s allocated objects, %d are marked" % (show(q.ev[ac[0]].val) if ac else "?", len(live)), T() if not ok else None)
        fi = g("free_index")
        want = min(dead) if dead else 0
        ok = len(fi) == 1 and const(strip_casts(q.ev[fi[0]].val)) == want
        c.check("sweep", f.name, ok, "index", q.end_loc(), "the search for free objects starts at %s" % (show(q.ev[fi[0]].val) if fi else "?"), T() if not ok else None)
        nz = g("needzero")
        freed = any(marked.get((k, "alloc")) for k in dead)
        ok = not freed or (len(nz) >= 1 and const(strip_casts(q.ev[nz[-1]].val)) == 1)
        c.check("sweep", f.name, ok, "zero", q.end_loc(), "reused objects are not cleared", T() if not ok else None)
        fr = calls(q, "mheap_free_span")
        ok = not (fr and live)
        c.check("sweep", f.name, ok, "free", q.end_loc(), "a span with marked objects is given back", T() if not ok else None)
        kept = [e for e in q.ev if e.k == "store" and (key_of(e.addr) or (0, 0))[1] in ("full_list", "partial_list")]
        ok = bool(fr) != bool(kept)
        c.check("sweep", f.name, ok, "keep", q.end_loc(), "a span is neither kept nor given back, or both", T() if not ok else None)
    c.need(n >= 4, "paths of sweep_span not found")
    f = p.need("mcentral_sweep")
    c.unit(f.name)
    lists = set()
    for i in f.calls("sweep_span"):
        lists |= {x for x in ("full_list", "partial_list") if x in flow_names(f, i.ops[1])}
        # the successor is read before the span is swept
        nx = [j for j in f.insts() if j.op == "load" and U(static_expr(f, j.ops[0]))[0] == "fld" and U(static_expr(f, j.ops[0]))[3] == "next"]
        ok = any(j.bb == i.bb and j.i < i.i for j in nx)
        c.check("sweep", f.name, ok, "next", i.loc, "the successor of a span is read after the span was swept")
    c.check("sweep", f.name, lists == {"full_list", "partial_list"}, "lists", f.loc, "only the spans of %s are swept" % sorted(lists))
    f = p.need("flush_mcache")
    c.unit(f.name)
    m = 0
    for i in f.calls("uncache_span"):
        m += 1
        v = U(static_expr(f, i.ops[1]))
        slot = v[1] if v[0] == "ld" else None
        ok = any(j.op == "store" and is_null(static_expr(f, j.ops[0])) and U(static_expr(f, j.ops[1])) == slot and (j.bb in f.dom(i.bb) or j.bb == i.bb or i.bb in f.dom(j.bb)) for j in f.insts()) if callable(getattr(f, "dom", None)) else \
            any(j.op == "store" and is_null(static_expr(f, j.ops[0])) and U(static_expr(f, j.ops[1])) == slot for j in f.insts())
        c.check("sweep", f.name, ok, "uncache", i.loc, "a swept span stays in a processor's cache")
    c.check("sweep", f.name, m >= 1, "flush", f.loc, "no cached span is returned before the sweep")
    n = [x for bb, x, t, fl, i in conds(f) if x[0] == "cmp" and const(x[3]) is not None and const(x[3]) > 1]
    size = p.structs["mcache_t"]["m"]
    size = next(x for x in size if x[0] == "alloc")
    c.check("sweep", f.name, any(const(x[3]) + (1 if x[1] in ("sle", "ule") else 0) == size[2] // 8 for x in n), "all-classes", f.loc, "not every span class of a processor is flushed")


def contradictory(q, name):
    """the path took the same test of unchanged bits both ways"""
    seen = {}
    for e in q.ev:
        if e.k == "store" and (key_of(e.addr) or (0, 0))[1] in ("gcmark_bits", "alloc_bits"):
            return False
        if e.k == "assume":
            x, t = strip_casts(e.cond), bool(e.truth)
            while x[0] == "not":
                x, t = strip_casts(x[1]), not t
            x = U(x)
            if is_call(x, name) and seen.setdefault((x[1],) + x[3:], t) != t:
                return True
    return False


def flow_names(f, op, seen=None):
    seen = set() if seen is None else seen
    e = U(static_expr(f, op))
    out = names(e)
    for x in subexprs(e):
        if isinstance(x, tuple) and x[:1] == ("phi",):
            i = next((j for j in f.insts() if j.op == "phi" and U(static_expr(f, j.id)) == x), None)
            if i is not None and i.id not in seen:
                seen.add(i.id)
                for b, v in i.ops:
                    out |= flow_names(f, v, seen)
    return out


def body(c):
    c.rule("phase", "every step of a cycle runs in its phase: world stopped or running, tracking on, in order", 10)
    c.rule("restart", "every exit of a cycle restarts the mutators and ends the stage", 4)
    c.rule("stop", "the stop protocol: the request is set and withdrawn, success means every processor stopped (finished marking), a stopped processor waits exactly as long as the request stands", 10)
    c.rule("roots", "every live coroutine contributes its function, arguments, future and stack", 10)
    c.rule("stack", "a coroutine's saved stack, pending error, traces, wait record and every frame word are roots", 20)
    c.rule("globals", "every global, pooled string and idle wait record is a root", 6)
    c.rule("mark", "every queued object is marked once and every pointer in it is followed", 10)
    c.rule("alloc", "memory allocated while marking is kept", 3)
    c.rule("sweep", "sweeping keeps exactly the marked objects", 10)
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    for s in (driver, protocol, coroutine_roots, stack_roots, global_roots, marking, sweeping):
        c.section(s, c, p)


main("R06", TECH, body)
