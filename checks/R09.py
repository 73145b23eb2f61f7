"""R09: a coroutine waiting for I/O is always resumed, once, with the real outcome."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import main
from util import *

# event-loop calls that cannot fail in the way they are used with a live handle and a callback
INFALLIBLE = {"uv_close", "uv_timer_start", "uv_fs_read", "uv_fs_write", "uv_timer_init", "uv_tcp_init", "uv_async_send", "uv_pipe_init",
              "uv_timer_stop", "uv_read_stop", "uv_udp_init_ex", "uv_async_init", "uv_ip4_name", "uv_ip6_name"}
# configuration steps whose failure must be noticed like any other
PRIMS = {"co_ready", "rti_co_throw", "rti_throw", "global_waiting_send", "global_async_send", "co_yield_waiting", "rt_coroutine_sleep",
         "rt_coroutine_new", "rt_coroutine_dispatch", "coroutine_get", "processor_get", "tlsprintf", "rt_string_ref", "rt_string_new",
         "rt_vec_push", "rt_vec_cap", "rti_gc_malloc", "rti_vec_access", "rt_string_ref_new", "rti_error_msg", "mallocz", "rt_array_new"}
THROW = {"rti_co_throw", "rti_throw"}
WAIT = "global_waiting_send"


def body(c):
    p = Program("runtime", lambda f: f.startswith("runtime/"))
    c.need(p.fn("co_ready") and p.callers(WAIT), "event-loop hand-off (global_waiting_send/co_ready) not found")

    def inline(f):
        return f.name not in PRIMS and f.file.startswith("runtime/") and len(f.blocks) <= 60

    cache = {}

    def paths(f):
        k = (f.tu, f.name)
        if k not in cache:
            cache[k] = [q for q in Walker(p, inline=inline, loops=1, max_paths=4000).paths(f) if not q.dead]
            c.unit(f)
        return cache[k]

    R = c.rule
    R("resume-or-arm", "every path of an operation started on the event loop resumes the waiting coroutine or leaves exactly one live completion pending", 15)
    R("callback-resumes", "every path of a completion callback resumes the waiter, or is excused by a flag whose setter already resumed it, a live reference count, an absent waiter, or a re-armed completion", 12)
    R("resume-once", "no path resumes the same coroutine twice or resumes while a completion that will resume again stays armed", 20)
    R("failure-raised", "a failed status on a path that resumes the waiter is recorded as an error (raised, or stored in a field the waiter tests and raises)", 10)
    R("status-tested", "the status an event-loop call or completion delivers is tested or stored", 10)
    R("publish-before-resume", "the outcome is recorded before the waiter is made runnable", 20)
    R("outcome-tested", "after the wait, a status the completion left for the waiter is tested, and a failed one is raised", 4)
    R("sync-failure-raised", "a system call an operation makes directly and finds failed is raised (or retried, or returned)", 2)
    R("right-waiter", "the coroutine that is resumed is the one that called the operation", 12)

    # ---------------- wrappers and their start functions
    sites = []
    for f in p.unique():
        for i in f.insts():
            if i.op == "call" and i.callee in (WAIT, "global_async_send") and f.name not in (WAIT,):
                n = fnname(static_expr(f, i.ops[0]))
                t = p.resolve(f.tu, n) if n else None
                if n is None:
                    # passed through a parameter or variable: resolved per path below
                    for q in paths(f):
                        for e in q.calls(i.callee):
                            n2 = fnname(e.args[0])
                            if n2 and p.resolve(f.tu, n2):
                                sites.append((f, i.callee, p.resolve(f.tu, n2)))
                    continue
                if t:
                    sites.append((f, i.callee, t))
    waiting = {}
    for f, how, t in sites:
        if how == WAIT:
            waiting.setdefault((t.tu, t.name), (t, []))[1].append(f)
    c.need(len(waiting) >= 12, "only %d waiting operations found" % len(waiting))

    def arms(path):
        """(event, callback fn, status) for each event-loop call with a completion callback"""
        out = []
        for e in path.ev:
            if e.k != "call" or not isinstance(e.name, str) or not e.name.startswith("uv_"):
                continue
            fs = [fnname(a) for a in e.args if fnname(a) and p.resolve(e.ins.fn.tu, fnname(a))]
            if not fs or e.name in ("uv_async_init",):
                continue
            cb = p.resolve(e.ins.fn.tu, fs[-1])
            st = False if e.name in INFALLIBLE else neg_status(e.res, path.facts)
            out.append((e, cb, st))
        return out

    def resumes(path):
        return [e for e in path.ev if e.k == "call" and e.name == "co_ready"]

    def tgt(e):
        return unversion(strip_all(e.args[0]))

    def conds(path):
        for e in path.ev:
            if e.k == "assume":
                yield e

    def counted(x):
        """the expression is made from a reference count"""
        return any(q[0] in ("ld", "rmw") and key_of(q[1]) and "ref" in key_of(q[1])[1] for q in subexprs(strip_all(x)))

    # ---- excuses
    def excused(path, f):
        """why a path may end without resuming: returns reason or None"""
        for e in conds(path):
            cond, truth = e.cond, e.truth
            if cond[0] == "not":
                cond, truth = cond[1], not truth
            # reference count not yet zero
            if cond[0] == "cmp" and cond[1] in ("eq", "ne") and const(cond[3]) is not None and (cond[1] == "eq") != truth and counted(cond[2]):
                return "still referenced"
            if cond[0] == "cmp" and cond[1] in ("eq", "ne") and const(cond[3]) == 0:
                z = (cond[1] == "eq") == truth
                x = strip_all(cond[2])
                k = key_of(x)
                # nobody waits: the pointer that would be resumed is null
                if z and k and k in resume_keys:
                    return "no waiter"
            x = strip_all(cond)
            if x[0] == "call" and x[1] == "uv_is_closing" and truth:
                return "close already pending"
            if x[0] == "cmp" and x[2][0] == "call" and x[2][1] == "uv_is_closing" and (x[1] == "ne") == truth and const(x[3]) == 0:
                return "close already pending"
            # flag handshake
            fl = flag_of(e)
            if fl and fl in done_flags:
                return "flag %s" % (fl,)
            if fl and (fl[0], not fl[1]) in deferral_flags:
                return "deferred to %s" % (fl[0],)
        return None

    def flag_of(e):
        """((struct, field), bool value) the path assumes for a boolean context flag"""
        cond, truth = e.cond, e.truth
        if cond[0] == "not":
            cond, truth = cond[1], not truth
        x = strip_all(cond)
        if x[0] == "cmp" and x[1] in ("eq", "ne") and const(x[3]) in (0, 1):
            v = ((x[1] == "eq") == truth) == (const(x[3]) == 1)
            x = x[2]
        else:
            v = truth
        if x[0] == "ld" and key_of(x):
            return (key_of(x), bool(v))
        return None

    # ---- collect all callbacks, transitively
    cbs = {}
    todo = [t for t, _ in waiting.values()] + [t for _, how, t in sites if how != WAIT]
    seen = set()
    while todo:
        f = todo.pop()
        if (f.tu, f.name) in seen:
            continue
        seen.add((f.tu, f.name))
        for q in paths(f):
            for e, cb, st in arms(q):
                if (cb.tu, cb.name) not in cbs:
                    cbs[(cb.tu, cb.name)] = cb
                    todo.append(cb)
        # options.exit_cb style registrations
        for i in f.insts():
            if i.op == "store":
                n = fnname(static_expr(f, i.ops[0]))
                g = p.resolve(f.tu, n) if n else None
                if g and addr_key(static_expr(f, i.ops[1])) and (addr_key(static_expr(f, i.ops[1]))[0] or "").startswith("uv_"):
                    if (g.tu, g.name) not in cbs:
                        cbs[(g.tu, g.name)] = g
                        todo.append(g)
    loopfns = {}
    for k, (t, _) in waiting.items():
        loopfns[k] = t
    for _, how, t in sites:
        loopfns[(t.tu, t.name)] = t
    loopfns.update(cbs)

    resume_keys = set()
    for f in loopfns.values():
        for q in paths(f):
            for e in resumes(q):
                k = key_of(e.args[0])
                if k:
                    resume_keys.add(k)

    # flags whose store of value v always comes with a resume on that path
    flag_stores = {}
    wrappers = {(w.tu, w.name) for _, ws in waiting.values() for w in ws}
    for f in p.unique(lambda f: f.file.startswith("runtime/")):
        if not any(i.op == "store" for i in f.insts()):
            continue
        k0 = (f.tu, f.name)
        if k0 not in loopfns:
            continue
        for q in paths(f):
            rs = resumes(q)
            for e in q.ev:
                if e.k == "store" and addr_key(e.addr) and const(e.val) in (0, 1):
                    flag_stores.setdefault((addr_key(e.addr), bool(const(e.val))), []).append((f, bool(rs), q))
    done_flags = {k for k, v in flag_stores.items() if all(x[1] for x in v)}
    # flags that defer the resume to a later event: a callback that sets one re-tests the whole condition afterwards
    deferral_flags = set()
    for k, v in flag_stores.items():
        if k[1] is not True or k in done_flags:
            continue
        vv = [x for x in v if (x[0].tu, x[0].name) in cbs]
        if not vv:
            continue
        good = True
        for f, rs, q in vv:
            idx = min(n for n, e in enumerate(q.ev) if e.k == "store" and addr_key(e.addr) == k[0] and const(e.val) == 1)
            later = [flag_of(e) for e in q.ev[idx:] if e.k == "assume"]
            if not any(fl and fl[0][0] in (k[0][0], "process_context_t") or fl and fl[0] == k[0] for fl in later) and not rs:
                good = False
        if good:
            deferral_flags.add(k)

    # ---- classify callbacks
    def strong(cb):
        """resumes on some path that is not guarded by a reference count"""
        for q in paths(cb):
            if resumes(q) and not any(e.k == "assume" and counted(e.cond) for e in q.ev):
                return True
        return False

    def completing(cb, seen=()):
        if (cb.tu, cb.name) in seen:
            return False
        for q in paths(cb):
            if resumes(q) or any(completing(x, seen + ((cb.tu, cb.name),)) for _, x, st in arms(q)):
                return True
        return False

    parked_ok = {}

    # ---- start functions
    for (tu, name), (f, ws) in sorted(waiting.items()):
        for q in paths(f):
            rs = resumes(q)
            ar = arms(q)
            live = [a for a in ar if a[2] is False and completing(a[1])]
            maybe = [a for a in ar if a[2] is None and completing(a[1])]
            pend = [a for a in ar if a[2] is False]
            why = None
            if not rs and not live:
                if maybe:
                    why = "result of %s is not tested: if it fails to start, nothing resumes the caller" % maybe[0][0].name
                elif any(neg_status(e.res, q.facts) for e in q.ev if e.k == "call" and isinstance(e.name, str) and e.name.startswith("uv_") and e.res
                         and e.name not in ("uv_is_closing", "uv_is_active")):
                    why = "failure path ends without resuming the caller"
                else:
                    ex = excused(q, f)
                    if not ex:
                        # parked: the coroutine is handed to state a later callback resumes from
                        keys = set()
                        for e in q.ev:
                            if e.k == "store" and addr_key(e.addr):
                                keys.add(addr_key(e.addr))
                        for w in ws:
                            for i in w.insts():
                                if i.op == "store":
                                    k = addr_key(static_expr(w, i.ops[1]))
                                    v = static_expr(w, i.ops[0])
                                    if k and any(z[0] == "call" and z[1] == "coroutine_get" for z in subexprs(v)):
                                        keys.add(k)
                        woken = {key_of(e.args[0]) for g in cbs.values() for qq in paths(g) for e in resumes(qq)}
                        st_unknown = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and e.name.startswith("uv_")
                                      and e.name not in INFALLIBLE and e.res and e.ins.ty == "i32" and neg_status(e.res, q.facts) is None and arms_ev(ar, e)]
                        # only a path that accepted a long-lived event source, or stores the coroutine itself, may park
                        if not ((keys & woken) and (pend or any(e.k == "store" and addr_key(e.addr) in woken for e in q.ev)) and not st_unknown):
                            why = "path neither resumes the caller nor leaves a completion pending"
                        else:
                            ex = "parked"
                    if ex:
                        parked_ok.setdefault(name, ex)
            c.check("resume-or-arm", name, why is None, name, q.end_loc(), "%s: %s" % (name, why), q.trace())

    for k, cb in sorted(cbs.items()):
        if not completing(cb) or not any(resumes(q) for q in paths(cb)):
            continue
        for q in paths(cb):
            rs = resumes(q)
            live = [a for a in arms(q) if a[2] is False and completing(a[1]) and strong(a[1])]
            if rs or live:
                c.ok("callback-resumes", cb.name)
                continue
            ex = excused(q, cb)
            c.check("callback-resumes", cb.name, ex is not None, cb.name, q.end_loc(),
                    "%s: a path of the completion callback ends without resuming the waiting coroutine" % cb.name, q.trace())

    # ---- once
    for k, f in sorted(loopfns.items()):
        for q in paths(f):
            rs = resumes(q)
            tg = [tgt(e) for e in rs]
            dup = [t for t in tg if tg.count(t) > 1]
            ok = not dup
            msg = ""
            if dup:
                msg = "%s: a path makes the same coroutine runnable twice" % f.name
            if ok and rs:
                for a in arms(q):
                    if a[2] is not True and strong(a[1]):
                        tk = {tgt_key(e2.args[0]) for qq in paths(a[1]) for e2 in resumes(qq)}
                        if any(tgt_key(e.args[0]) in tk for e in rs):
                            ok = False
                            msg = "%s: resumes the waiter although %s armed %s which resumes it again" % (f.name, a[0].name, a[1].name)
            if rs or arms(q):
                c.check("resume-once", f.name, ok, f.name, q.end_loc(), msg, q.trace())
            # two strong completions pending: each must disarm or flag out the other
            st = [a for a in arms(q) if a[2] is not True and strong(a[1]) and a[1] is not f]
            for a in st:
                for b in st:
                    if a[1] is b[1]:
                        continue
                    ok = True
                    for qa in paths(a[1]):
                        if not resumes(qa):
                            continue
                        disarm = {"uv_timer_start": "uv_timer_stop", "uv_read_start": "uv_read_stop"}.get(b[0].name)
                        done = any(e.k == "call" and e.name == disarm for e in qa.ev) or any(
                            e.k == "assume" and strip_all(e.cond)[0] in ("call", "cmp") and "uv_is_active" in repr(e.cond) and not pos(e) for e in qa.ev)
                        if not done:
                            stores = {(addr_key(e.addr), bool(const(e.val))) for e in qa.ev if e.k == "store" and addr_key(e.addr) and const(e.val) in (0, 1)}
                            tests = None
                            for qb in paths(b[1]):
                                if resumes(qb):
                                    t = {fl for fl in (flag_of(e) for e in qb.ev if e.k == "assume") if fl}
                                    tests = t if tests is None else tests & t
                            done = any((k2, not v) in (tests or ()) for k2, v in stores)
                        if not done:
                            ok = False
                    c.check("resume-once", "%s+%s" % (a[1].name, b[1].name), ok, "%s+%s" % (a[1].name, b[1].name), a[1].loc,
                            "%s resumes the waiter but neither stops nor flags out %s, which resumes it again" % (a[1].name, b[1].name))

    # ---- fields a waiter tests and raises on
    raise_fields = set()
    for t, ws in waiting.values():
        for w in ws:
            for q in paths(w):
                last = None
                for e in q.ev:
                    if e.k == "assume":
                        last = e
                    if e.k == "call" and e.name in THROW and last is not None:
                        ks = {key_of(z) for z in subexprs(strip_all(last.cond)) if z[0] == "ld"}
                        raise_fields |= {k for k in ks if k}
                if w.name.startswith("mbedtls_"):
                    # value handed to the TLS layer, which reports it
                    r = q.ev[-1]
                    if r.k == "ret" and r.val:
                        raise_fields |= {key_of(z) for z in subexprs(strip_all(r.val)) if z[0] == "ld" and key_of(z)}
                    for e in q.ev:
                        if e.k == "assume" and r.k == "ret" and r.val and const(r.val) is not None and const(r.val) < 0:
                            raise_fields |= {key_of(z) for z in subexprs(strip_all(e.cond)) if z[0] == "ld" and key_of(z)}

    def status_exprs(f, q):
        """(label, expr) of outcome values delivered on this path"""
        out = []
        for e in q.ev:
            if e.k == "call" and isinstance(e.name, str) and e.name.startswith("uv_") and e.ins.ty == "i32" and e.name not in INFALLIBLE \
                    and e.name not in ("uv_is_closing", "uv_is_active"):
                out.append((e.name, e.res, e))
        if (f.tu, f.name) in cbs:
            for n, (an, ty) in enumerate(zip(f.argn, f.argt)):
                if n >= 1 and ty in ("i32", "i64") and an in ("status", "nread", "result", "err", "res"):
                    out.append((an, ("a", n), None))
            for e in q.ev:
                if e.k == "load" and key_of(e.addr) == ("uv_fs_s", "result"):
                    out.append(("req->result", e.res, None))
                    break
        return out

    CLOSE_BEST_EFFORT = {"uv_fs_close"}
    for k, f in sorted(loopfns.items()):
        in_wait = k in waiting or (k in cbs and any(resumes(q) for q in paths(f)))
        if not in_wait:
            continue
        # a callback that delivers a status but never looks at it
        for q in paths(f):
            rs = resumes(q)
            ready_at = [n for n, e in enumerate(q.ev) if e.k == "call" and e.name == "co_ready"]
            throws = [n for n, e in enumerate(q.ev) if e.k == "call" and e.name in THROW]
            if ready_at:
                late = [e for n, e in enumerate(q.ev) if n > ready_at[0] and (e.k == "call" and e.name in THROW and len(ready_at) == 1)]
                late += [e for n, e in enumerate(q.ev) if n > ready_at[-1] and e.k == "store" and addr_key(e.addr) in (raise_fields | RESULT_FIELDS(p))
                         and not rooted_local(e.addr)]
                c.check("publish-before-resume", f.name, not late, f.name, late[0].loc if late else "",
                        "%s: outcome is recorded after the waiter was made runnable" % f.name, q.trace())
            for label, res, e in status_exprs(f, q):
                if label in CLOSE_BEST_EFFORT:
                    continue
                st = neg_status_any(res, q, label)
                stored = [x for x in q.ev if x.k == "store" and mentions(strip_all(x.val), strip_all(res)) and addr_key(x.addr) in raise_fields]
                if st is None and not stored:
                    # an armed call whose result is not examined is reported by resume-or-arm; here: delivered statuses and setup steps
                    if e is None or (rs and e is not None):
                        if label == "uv_fileno" or not rs:
                            continue
                        c.check("status-tested", "%s/%s" % (f.name, label), False, "%s/%s" % (f.name, label), e.loc if e else f.loc,
                                "%s: the outcome of %s is never looked at before the waiter is told it succeeded" % (f.name, label), q.trace())
                    continue
                if rs or e is None:
                    c.ok("status-tested", "%s/%s" % (f.name, label))
                if st is True and rs:
                    negstore = [x for x in q.ev if x.k == "store" and addr_key(x.addr) in raise_fields and (
                        mentions(strip_all(x.val), strip_all(res)) or (const(x.val) is not None and const(x.val) < 0))]
                    recovered = any(x.k == "call" and x.res and x.name in ("pread", "pwrite") and neg_status(x.res, q.facts) is False for x in q.ev)
                    ok = bool(throws) or bool(negstore) or recovered
                    c.check("failure-raised", "%s/%s" % (f.name, label), ok, "%s/%s" % (f.name, label), q.end_loc(),
                            "%s: %s failed on this path but the waiter is resumed as if it had succeeded" % (f.name, label), q.trace())

    # ---- right waiter
    for (tu, name), (f, ws) in sorted(waiting.items()):
        targets = set()
        fns = [f]
        for q in paths(f):
            fns += [a[1] for a in arms(q) if completing(a[1])]
        for g in {(x.tu, x.name): x for x in fns}.values():
            for q in paths(g):
                for e in resumes(q):
                    a = strip_all(e.args[0])
                    if a[0] == "a":
                        if g is f:
                            targets.add(("arg", a[1]))
                    elif key_of(a):
                        targets.add(("fld", key_of(a)))
        if not targets:
            continue
        # fields the start function itself fills from its coroutine argument
        own = {}
        for q in paths(f):
            for e in q.ev:
                if e.k == "store" and addr_key(e.addr) and strip_all(e.val)[0] == "a":
                    own[addr_key(e.addr)] = strip_all(e.val)[1]
        for w in ws:
            if w.name == name:
                continue
            for q in paths(w):
                for n, e in enumerate(q.ev):
                    if not (e.k == "call" and e.name == WAIT and fnname(e.args[0]) == name):
                        continue
                    cur = set()
                    for x in q.ev[:n]:
                        if x.k == "store" and addr_key(x.addr):
                            v = strip_all(x.val)
                            if v[0] == "call" and v[1] == "coroutine_get" or (v[0] == "ld" and key_of(v) == ("n_processor_t", "coroutine")):
                                cur.add(addr_key(x.addr))
                    good, miss = False, []
                    for kind, t in sorted(targets, key=str):
                        if kind == "arg" or t in own:
                            ai = t if kind == "arg" else own[t]
                            v = strip_all(e.args[1 + ai]) if 1 + ai < len(e.args) else ("u",)
                            hit = v[0] == "call" and v[1] == "coroutine_get"
                        else:
                            hit = t in cur
                        if hit:
                            good = True
                        else:
                            miss.append(t)
                    c.check("right-waiter", "%s->%s" % (w.name, name), good, "%s->%s" % (w.name, name), e.loc,
                            "%s waits for %s without recording the calling coroutine where the completion resumes from (%s)" % (w.name, name, miss[:2]), q.trace())
    # ---- outcome fields: status values a loop function leaves for the waiter
    outcome = {}
    for k, f in sorted(loopfns.items()):
        for q in paths(f):
            sts = status_exprs(f, q)
            for x in q.ev:
                if x.k != "store" or not addr_key(x.addr) or rooted_local(x.addr) or addr_key(x.addr)[0] == "global":
                    continue
                v = strip_all(x.val)
                neg = const(x.val) is not None and const(x.val) < 0
                for label, res, e in sts:
                    if mentions(v, strip_all(res)) and neg_status_any(res, q, label) is not False:
                        neg = True
                if neg:
                    outcome.setdefault(addr_key(x.addr), set()).add((k, frozenset(key_of(r.args[0]) for r in resumes(q))))
    def waits_on(setters, cur):
        tk = set().union(*[t for _, t in setters])
        return not tk or bool((tk - {None}) & cur) or tk == {None}

    for (tu, name), (f, ws) in sorted(waiting.items()):
        reach = {(tu, name)}
        st = [f]
        while st:
            g = st.pop()
            for q in paths(g):
                for _, cb, _s in arms(q):
                    if (cb.tu, cb.name) not in reach:
                        reach.add((cb.tu, cb.name))
                        st.append(cb)
        for w in ws:
            for q in paths(w):
                at = [n for n, e in enumerate(q.ev) if e.k == "call" and e.name == WAIT and fnname(e.args[0]) == name]
                if not at:
                    continue
                cur = {addr_key(x.addr) for x in q.ev[:at[-1]] if x.k == "store" and addr_key(x.addr)
                       and any(z[0] == "call" and z[1] == "coroutine_get" for z in subexprs(x.val))}
                mine = {k for k, setters in outcome.items() if reach & {g for g, _ in setters} and waits_on(setters, cur)}
                for k in sorted(mine):
                    lds = [e for e in q.ev[at[-1]:] if e.k == "load" and key_of(e.addr) == k]
                    thrown = any(e.k == "call" and e.name in THROW for e in q.ev)
                    ret = q.ev[-1].val if q.ev[-1].k == "ret" else None
                    negret = ret is not None and const(ret) is not None and const(ret) < 0
                    passed = ret is not None and any(mentions(strip_all(ret), strip_all(e.res)) for e in lds)
                    v = [neg_status(e.res, q.facts) for e in lds]
                    why = None
                    if True in v and not thrown and not negret and not (passed and w.name.startswith("mbedtls_")):
                        why = "a failed outcome (%s.%s negative) ends the call without raising" % k
                    elif lds and not thrown and not negret and True not in v and False not in v and not (passed and w.name.startswith("mbedtls_")):
                        why = "the outcome in %s.%s is used without testing it for failure" % k
                    elif not lds and not thrown and not negret:
                        why = "the outcome in %s.%s is never looked at after the wait" % k
                    c.check("outcome-tested", "%s/%s" % (w.name, k[1]), why is None, "%s/%s" % (w.name, k[1]), q.end_loc(),
                            "%s: %s" % (w.name, why), q.trace())

    # ---- synchronous system calls made by the operations themselves
    SYS = {"recvfrom", "sendto", "read", "write", "pread", "pwrite", "recv", "send"}
    for f in p.unique(lambda f: f.file.startswith("runtime/nutils/") and not f.internal and not f.name.startswith("uv_")):
        names = {i.callee for i in f.insts() if i.op == "call" and i.callee}
        if not any(n in SYS or n.startswith("uv_") for n in names) or (f.tu, f.name) in loopfns:
            continue
        for q in paths(f):
            last = {}
            for e in q.ev:
                if e.k == "call" and isinstance(e.name, str) and e.ins.ty in ("i32", "i64") and e.res is not None and (
                        e.name in SYS or e.name.startswith("uv_")) and e.name not in INFALLIBLE and e.name not in ("uv_is_closing", "uv_is_active"):
                    last[e.name] = e
            thrown = any(e.k == "call" and e.name in THROW for e in q.ev)
            ret = q.ev[-1].val if q.ev[-1].k == "ret" else None
            for n, e in sorted(last.items()):
                st = neg_status(e.res, q.facts)
                if st is None:
                    continue
                passed = ret is not None and mentions(strip_all(ret), strip_all(e.res)) or (ret is not None and const(ret) is not None and const(ret) < 0)
                c.check("sync-failure-raised", "%s/%s" % (f.name, n), st is False or thrown or passed, "%s/%s" % (f.name, n), q.end_loc(),
                        "%s: %s failed on this path but the operation returns as if it had succeeded" % (f.name, n), q.trace())
    c.notes.append("%d waiting operations, %d callbacks; parked: %s" % (len(waiting), len(cbs), parked_ok))
    c.assumptions += ["an accepted event-loop request invokes its callback exactly once", "uv_timer_start/uv_fs_read/uv_fs_write on a live handle cannot fail",
                      "closing a descriptor is best effort"]


def tgt_key(a):
    return key_of(a) or strip_all(a)[:2]


def pos(e):
    cond, truth = e.cond, e.truth
    if cond[0] == "not":
        return not truth
    if cond[0] == "cmp" and cond[1] == "eq" and const(cond[3]) == 0:
        return not truth
    return truth


def arms_ev(ar, e):
    return any(a[0] is e for a in ar)


def neg_status_any(res, q, label):
    r = neg_status(res, q.facts)
    if r is None and label == "req->result":
        # the field is re-read for each test
        vals = [e.res for e in q.ev if e.k == "load" and key_of(e.addr) == ("uv_fs_s", "result")]
        rs = [neg_status(v, q.facts) for v in vals]
        if True in rs:
            return True
        if False in rs:
            return False
    return r


_rf = None


def RESULT_FIELDS(p):
    """context fields in which an operation hands its outcome to the waiter"""
    return {("fs_context_t", "data_len"), ("fs_context_t", "fd"), ("inner_conn_t", "read_len"), ("inner_tls_conn_t", "read_len"),
            ("pipe_context_t", "buffer_count"), ("process_context_t", "exit_code"), ("process_context_t", "pid")}


main("R09", "Path typestate over every function handed to the event loop and every completion callback: each path must resume the waiting "
            "coroutine exactly once or leave one completion armed; failed statuses must reach a raise before the resume.", body)
