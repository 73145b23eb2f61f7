"""R02: a raised error is never lost, skipped or run past."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from lir import *
from natdecl import linkids

TECH = ("typestate over LLVM IR paths (raise, then only cleanup, then leave), next-emission dataflow over the code generator "
        "(every call that can raise is followed by the error test before anything else is generated), "
        "cross-language match of raising native functions with their declarations")

CLEAN = re.compile(r"free|unlock|clos|cleanup|release|destroy|strerror|printf|co_ready|_stop$|_exit$|^memset|^llvm\.|debug|DEBUG|^rt_linked_fixalloc|x_bname|basename|^uv_is_|^log_|errno|async_send$|unref|shutdown")
# raising is impossible there, for the stated reason
INFEASIBLE = {
    ("buf_next_ref", "rt_vec_element_addr"): "the index is taken modulo the capacity (R07)",
    ("buf_pop", "rti_vec_access"): "the index is taken modulo the capacity (R07)",
    ("register_const_str_pool", "rt_string_new"): "the text is a constant of the program",
    ("rt_vec_concat", "rt_vec_cap"): "the sum of the lengths of two existing vecs (R01)",
    ("rt_uv_dns_lookup", "rt_vec_cap"): "constant capacity",
    ("coroutine_dump_error", "rti_vec_access"): "index below the length just read, the program is about to end",
    ("signal_notify", "rti_vec_access"): "index below the length in the head of the loop",
    ("coroutine_aco_init", "coroutine_wrapper"): "body of another coroutine",
}


def body(c):
    c.rule("leave", "after raising, a native function only cleans up and returns; it neither goes on with the operation nor raises again", 40)
    c.rule("state", "raising sets the error flag and the error of the coroutine; the flag is cleared only when the error is taken", 6)
    c.rule("test", "the error tests report an error exactly when one is pending, and an uncaught panic ends the program", 4)
    c.rule("uncaught", "a coroutine that ends with an error hands it to whoever waits or ends the program with a failure status", 2)
    c.rule("declared", "a native function that can raise is declared fallible wherever the standard library binds it", 30)
    c.rule("tested", "generated code tests for the error right after every implicit runtime call that can raise", 6)
    c.rule("calls", "generated code tests for the error right after every call of a fallible function", 1)
    c.rule("target", "a raised error goes to the innermost catch of the statement, or else to the error exit of the function", 3)
    c.rule("throw", "a throw statement records the error and then leaves", 1)
    c.rule("catch", "a catch takes the error before its body runs and is skipped when there was none", 2)
    c.rule("defers", "while defers run because of an error, the error is set aside and put back afterwards", 1)
    c.rule("fallible", "a call of a fallible function is accepted only where the error is caught or passed on", 2)
    rt = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    raisers = runtime(c, rt)
    compiler(c, rt, raisers)


def flag_store(e):
    return e.k == "store" and addr_key(e.addr) and addr_key(e.addr)[1] == "has_error"


def runtime(c, p):
    fns = [g for g in p.unique() if g.file.startswith("runtime/") and not g.file.startswith("runtime/mbedtls")]
    by = {}
    for g in fns:
        by.setdefault(g.name, []).append(g)

    def stores(g):
        for i in g.insts():
            if i.op == "store":
                k = addr_key(static_expr(g, i.ops[1]))
                if k and k[1] == "has_error":
                    yield i
    setters = {}
    for g in fns:
        vs = [static_expr(g, i.ops[0]) for i in stores(g)]
        if vs:
            setters[g.name] = (g, vs)
    RAISE = {"rti_throw", "rti_co_throw", "co_throw_error", "throw_index_out_error", "co_resume_error"}
    TAKE = {"co_remove_error": 0, "co_hold_error": 0}
    prims = {n for n, (g, vs) in setters.items() if any(const(v) not in (0, None) for v in vs)} | RAISE
    for n in sorted(RAISE | set(TAKE)):
        setters.setdefault(n, (p.need(n), []))

    # ---------------------------------------------------------------- state
    def state():
        for n, (g, vs) in sorted(setters.items()):
            c.unit(g)
            for q in Walker(p, vn=True, max_paths=5000, inline=lambda h: h.name in TAKE and h.name != n).paths(g):
                if q.dead:
                    continue
                st = [e for e in q.ev if flag_store(e)]
                wr = [e for e in q.ev if e.k == "call" and (e.name.startswith("rti_write_barrier") or is_copy(e)) and (addr_key(e.args[0]) or (0, 0))[0:2] == ("coroutine_t", "error")
                      or e.k == "store" and (addr_key(e.addr) or (0, 0))[0:2] == ("coroutine_t", "error")]
                ends = any(h is not None and not returns(h) for e in q.ev if e.k == "call" and isinstance(e.name, str) for h in [p.resolve(e.ins.fn.tu, e.name)])
                last = const(st[-1].val) if st else None
                if n in prims:
                    c.check("state", n, ends or last not in (0, None), n + ":flag", q.end_loc(), "%s returns without having raised" % n, q.trace())
                    c.check("state", n + " error", ends or bool(wr), n + ":error", q.end_loc(), "%s raises without storing the error" % n, q.trace())
                    tr = any(e.k == "store" and "traces" in (addr_key(e.addr) or ()) or e.k == "call" and e.name != "rt_vec_push"
                             and e.args and (addr_key(e.args[0]) or (0, 0))[0:2] == ("coroutine_t", "traces") for e in q.ev) \
                        or any(pr in ("ne", "ugt", "sgt") and is_null(r) and "traces" in repr(l) for pr, l, r, _ in known(q))
                    c.check("state", n + " trace", ends or tr, n + ":trace", q.end_loc(), "%s raises without the trace every error test extends" % n, q.trace())
                elif n in TAKE:
                    c.check("state", n, last == 0, n + ":flag", q.end_loc(), "%s takes the error but leaves it pending" % n, q.trace())
                    # the old error must have been copied out before it was overwritten
                    rd = [k for k, e in enumerate(q.ev) if is_copy(e) and (addr_key(e.args[1]) or (0, 0))[0:2] == ("coroutine_t", "error")
                          or e.k in ("store", "load") and any(x[0] == "ld" and key_of(x) and key_of(x)[0:2] == ("coroutine_t", "error") for x in exprs(e))]
                    w = [k for k, e in enumerate(q.ev) if e in wr]
                    c.check("state", n + " error", bool(rd) and (not w or rd[0] < w[0]), n + ":taken", q.end_loc(), "%s loses the error" % n, q.trace())
                    if n == "co_hold_error":
                        kept = any(e.k == "call" and (e.name.startswith("rti_write_barrier") or is_copy(e)) and (addr_key(e.args[0]) or (0, 0))[0:2] == ("held_error_t", "error") for e in q.ev)
                        r = strip_casts(q.ev[-1].val) if q.ev[-1].k == "ret" and q.ev[-1].val is not None else ("c", 0)
                        c.check("state", n + " kept", kept and const(r) is None, n + ":kept", q.end_loc(), "%s does not keep the error it sets aside" % n, q.trace())
                elif st and last == 0:
                    # initialisation of a fresh coroutine: nothing but initial values
                    fresh = sum(1 for e in q.ev if e.k == "store" and addr_key(e.addr) and addr_key(e.addr)[0] == "coroutine_t") >= 4
                    c.check("state", n, fresh, n + ":clear", q.end_loc(), "%s clears the error flag without taking the error" % n, q.trace())
                if n == "co_resume_error":
                    c.check("state", n + " source", any((addr_key(e.args[1]) or (0, 0))[0:2] == ("held_error_t", "error") for e in wr if e.k == "call"), n + ":source", q.end_loc(), "%s does not put back the error it is given" % n, q.trace())
    def returns(h):
        return any(i.op == "ret" for b in h.reach(0) | {0} for i in h.blocks[b])
    c.section(state)

    # ---------------------------------------------------------------- leave
    direct = [g for g in fns if any(i.op == "call" and i.callee in prims for i in g.insts()) and g.name not in prims]
    c.need(len(direct) >= 30, "functions that raise not found")

    def leave(g):
        c.unit(g)

        for q in Walker(p, vn=True, max_paths=40000, inline=lambda h: h.internal and h.name not in prims and not CLEAN.search(h.name) and len(h.blocks) < 10 and h.file == g.file).paths(g):
            if q.dead:
                continue
            up = None
            bad = None
            for e in q.ev:
                if e.k == "call" and e.name in prims:
                    if up is not None:
                        bad = (e, "raises a second time")
                        break
                    up = e
                    continue
                if up is None:
                    continue
                if e.k == "call" and isinstance(e.name, str) and not CLEAN.search(e.name):
                    h = p.resolve(e.ins.fn.tu, e.name)
                    if h is not None and harmless(p, h):
                        continue
                    bad = (e, "goes on with %s" % e.name)
                    break
                if e.k == "store" and const(e.val) is None:
                    a = strip_casts(e.addr)
                    while a[0] in ("fld", "idx"):
                        a = strip_casts(a[1])
                    if a[0] != "al" and not (a[0] == "a" and g.sret and a[1] == 0):
                        bad = (e, "goes on storing to %s" % show(e.addr))
                        break
                if e.k in ("rmw", "cas"):
                    bad = (e, "goes on with an atomic update")
                    break
            if up is None:
                continue
            c.check("leave", g.name, bad is None, "%s:%s" % (g.name, bad[1] if bad else ""), bad[0].loc if bad else "", "%s raises and then %s" % (g.name, bad[1] if bad else ""), q.trace())
    for g in direct:
        c.section(leave, g)

    # ---------------------------------------------------------------- tests
    def tests():
        for n in ("co_has_panic", "co_has_error"):
            g = p.need(n)
            c.unit(g)
            seen = set()
            for q in Walker(p, vn=True).paths(g):
                if q.dead:
                    continue
                flag = None
                catch = None
                for pr, l, r, ev in known(q):
                    k = key_of(strip_casts(l))
                    if k and k[1] == "has_error" and const(r) == 0:
                        flag = pr == "ne" if flag is None else flag
                    if strip_casts(l) == ("a", 0) and const(r) == 0 and n == "co_has_panic":
                        catch = pr == "ne"
                flag, catch = flags(q, flag, catch)
                ends = any(e.k == "call" and e.name in ("exit", "abort", "_exit") for e in q.ev)
                ret = const(q.ev[-1].val) if q.ev and q.ev[-1].k == "ret" and q.ev[-1].val is not None else None
                if flag is None:
                    c.bad("test", n + ":untested", q.end_loc(), "%s returns without looking at the error flag" % n, q.trace())
                elif not flag:
                    c.check("test", n, ret == 0, n + ":none", q.end_loc(), "%s reports an error although none is pending" % n, q.trace())
                    seen.add(0)
                elif n == "co_has_panic" and not catch:
                    c.check("test", n, ends, n + ":uncaught", q.end_loc(), "%s returns on an uncaught panic" % n, q.trace())
                    seen.add(2)
                else:
                    c.check("test", n, ret == 1 or ends, n + ":pending", q.end_loc(), "%s does not report the pending error" % n, q.trace())
                    seen.add(1)
            c.need({0, 1} <= seen, "%s: expected outcomes not found" % n)
        # an uncaught panic: some path ends the program with a failure status
        g = p.need("co_has_panic")
        ex = [i for i in g.insts() if i.op == "call" and i.callee in ("exit", "_exit")]
        c.check("test", "uncaught panic", bool(ex) and all(const(static_expr(g, i.ops[0])) not in (0,) for i in ex), "co_has_panic:exit", g.loc, "an uncaught panic does not end the program with a failure status")
    c.section(tests)

    def uncaught():
        g = p.need("coroutine_wrapper")
        c.unit(g)
        n = 0
        for q in Walker(p, vn=True, max_paths=20000, pure={"mutex_lock", "mutex_unlock"}).paths(g):
            err = wait = None
            for pr, l, r, ev in known(q):
                k = key_of(strip_casts(l))
                if k and const(r) == 0:
                    if k[1] == "await_co":
                        wait = pr == "ne"
                    if k[1] == "has_error":
                        err = pr == "ne"
            err2, _ = flags(q, err, None)
            err = err2 if err is None else err
            cs = [e for e in q.ev if e.k == "call"]
            futs = {bool(e.truth) == (e.cond[1] == "ne") for e in q.ev if e.k == "assume" and e.cond[0] == "cmp" and ldf(e.cond[2]) == "future" and const(e.cond[3]) == 0}
            if len(futs) > 1:
                continue        # the future of a coroutine is set before it starts
            fut = next(iter(futs), None)
            e0 = next((bool(e.truth) for e in q.ev if e.k == "assume" and ldf(e.cond) == "has_error"), None)
            if e0 and fut is not False:
                c.check("uncaught", "future", any(e.name == "union_casting" and "error" in show(e.args[0]) and "future" in show(e.args[0]) for e in cs), "future", q.end_loc(),
                        "a coroutine ends with an error that its future does not get", q.trace())
            if wait is False:
                # nobody waits
                dumped = any(e.name == "coroutine_dump_error" for e in cs)
                ends = any(e.name in ("exit", "_exit") and const(e.args[0]) not in (0, None) for e in cs)
                if err is None:
                    c.bad("uncaught", "untested", q.end_loc(), "a coroutine that nobody waits for ends without its error being looked at", q.trace())
                elif err:
                    n += 1
                    c.check("uncaught", "nobody waits", dumped and ends, "exit", q.end_loc(), "a coroutine ends with an error that is neither reported nor handed on", q.trace())
                else:
                    c.ok("uncaught", "no error")
        c.need(n > 0, "coroutine end with an error not found")
    c.section(uncaught)

    # ---------------------------------------------------------------- may raise
    def succ(g):
        for i in g.insts():
            if i.op == "call" and i.callee:
                yield i.callee
            if i.op == "call" and i.callee in ("rt_coroutine_new", "fn_new"):
                continue  # the body of another coroutine
            st = list(i.ops or [])
            while st:
                o = st.pop()
                if isinstance(o, (list, tuple)):
                    st.extend(o)
                elif isinstance(o, str) and o.startswith("@") and o[1:] in by:
                    yield o[1:]
    memo = {}

    def raises(g, callbacks=True):
        """call chain from g to a raising function, or None"""
        k0 = (g.tu, g.name)
        if (k0, callbacks) in memo:
            return memo[k0, callbacks]
        seen, st = {k0: None}, [g]
        res = None
        while st and res is None:
            x = st.pop()
            for n in (succ(x) if callbacks else [i.callee for i in x.insts() if i.op == "call" and i.callee]):
                if (x.name, n) in INFEASIBLE:
                    continue
                if n in prims:
                    r, k = [n], (x.tu, x.name)
                    while k:
                        r.append(k[1])
                        k = seen[k]
                    res = r[::-1]
                    break
                h = p.resolve(x.tu, n)
                if h and (h.tu, h.name) not in seen and h.file.startswith("runtime/"):
                    if not possible(p, x, n, prims):
                        continue
                    seen[h.tu, h.name] = (x.tu, x.name)
                    st.append(h)
        memo[k0, callbacks] = res
        return res

    def declared():
        seen = 0
        for d in linkids():
            if d.name not in by:
                continue
            g = by[d.name][0]
            ch = raises(g)
            if ch is None:
                continue
            seen += 1
            c.check("declared", "%s %s" % (d.file, d.name), d.fallible, "%s:%s" % (d.file, d.name), "%s:%d" % (d.file, d.line),
                    "%s can raise (%s) but is declared without '!', so nobody tests for the error" % (d.name, " -> ".join(ch)))
        c.need(seen >= 30, "only %d raising bindings found" % seen)
    c.section(declared)
    out = {n: raises(gs[0], False) for n, gs in by.items()}
    return out


def ldf(e):
    k = key_of(strip_casts(e))
    return k[1] if k else None


_h = {}


def harmless(p, h):
    """only calls cleanup functions, transitively"""
    k = (h.tu, h.name)
    if k in _h:
        return _h[k]
    _h[k] = True
    ok = True
    for i in h.insts():
        if i.op == "call" and isinstance(i.callee, str) and not CLEAN.search(i.callee):
            g = p.resolve(h.tu, i.callee)
            if g is None or not harmless(p, g):
                ok = False
        if i.op == "store":
            try:
                v = static_expr(h, i.ops[0])
            except Exception:
                v = None
            if v is not None and const(v) is None and addr_key(static_expr(h, i.ops[1])):
                ok = False
    _h[k] = ok
    return ok


def exprs(e):
    for x in ([e.val, e.addr] if e.k == "store" else list(e.args or ())):
        if x is not None:
            for y in subexprs(x):
                yield y


def mentions_field(x, f):
    return any(y[0] == "fld" and y[3] == f or y[0] == "ld" and key_of(y) and key_of(y)[1] == f for y in subexprs(x))


def flags(q, flag, catch):
    """values of the flag and of the be_catch argument where they are branched on directly"""
    for e in q.ev:
        if e.k != "assume":
            continue
        x, t = e.cond, bool(e.truth)
        while x[0] == "not":
            x, t = x[1], not t
        y = strip_casts(x)
        k = key_of(y)
        if k and k[1] == "has_error":
            flag = t
        if y == ("a", 0):
            catch = t
        if x[0] == "cmp" and const(x[3]) == 0:
            y = strip_casts(x[2])
            k = key_of(y)
            v = t if x[1] == "ne" else not t
            if k and k[1] == "has_error":
                flag = v
            if y == ("a", 0):
                catch = v
    return flag, catch


_poss = {}


def possible(p, x, n, prims):
    """can the call of n inside x raise, given what x knows about the arguments (indexes bounded by loops)"""
    k = (x.tu, x.name, n)
    if k in _poss:
        return _poss[k]
    _poss[k] = True
    if n not in ("rti_vec_access", "rt_vec_element_addr"):
        return True
    try:
        r = False
        for q in Walker(p, vn=True, max_paths=3000, loops=2, inline=lambda h: h.name == n, pure=set(prims) | {"free", "malloc", "mallocz", "strdup", "rt_string_ref"}).paths(x):
            if any(e.k == "call" and e.name in prims for e in q.ev if e.depth > 0) and not q.dead:
                r = True
                break
        _poss[k] = r
    except Exception:
        pass
    return _poss[k]


# ==================================================================== compiler
def compiler(c, rt, raisers):
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    L = Lir(p)
    emits = L.reach
    fns = [g for g in p.unique() if g.file.startswith("src/") and emits(g)]
    pure = {g.name for g in p.unique()} | {"linked_push", "push_rt_call"}
    TEST = ("co_has_panic", "co_has_error")

    def rtname(g, i):
        """names an emitted runtime call can have"""
        if i.op != "call":
            return None
        if i.callee == "push_rt_call":
            e = static_expr(g, i.ops[1])
        elif i.callee == "lir_rtcall":
            e = static_expr(g, i.ops[0])
        else:
            return None
        return [x[1] for x in subexprs(e) if x[0] == "s"] or [None]

    # ---- first thing a function emits
    firsts = {}

    def next_from(g, b, k):
        """emissions that can come next from instruction k of block b; None = the function returns"""
        out, seen, st = [], set(), [(b, k)]
        while st:
            b, k = st.pop()
            stop = False
            for i in g.blocks[b][k:]:
                if i.op == "ret":
                    out.append(None)
                if i.op == "call" and i.callee:
                    if i.callee in PUSH:
                        out.append((g, i))
                        stop = True
                        break
                    h = p.resolve(g.tu, i.callee)
                    if h is not None and emits(h):
                        out.append((g, i))
                        stop = True
                        break
                if i.op == "unreachable":
                    stop = True
                    break
            if stop:
                continue
            for n in g.succ[b]:
                if n not in seen:
                    seen.add(n)
                    st.append((n, 0))
        return out

    def is_test(g, i, depth=0):
        """does this emitting call emit the error test first"""
        ns = rtname(g, i)
        if ns is not None:
            return all(n in TEST for n in ns)
        h = p.resolve(g.tu, i.callee)
        if h is None or depth > 6:
            return False
        k = (h.tu, h.name)
        if k not in firsts:
            firsts[k] = False
            nx = next_from(h, 0, 0)
            firsts[k] = bool(nx) and all(x is not None and is_test(x[0], x[1], depth + 1) for x in nx)
        return firsts[k]

    # ---- conditions under which the native function raises
    def kinds(name):
        """kind constants tested equal on every raising path of the native function, None if it can raise otherwise"""
        g = next((x for x in rt.unique() if x.name == name), None)
        ks = set()
        prim = {"rti_throw", "rti_co_throw"}
        for q in Walker(rt, vn=True, max_paths=5000).paths(g):
            hit = [n for n, e in enumerate(q.ev) if e.k == "call" and (e.name in prim or e.name in raisers and raisers[e.name])]
            if not hit:
                continue
            got = [const(r) for pr, l, r, _ in known(q, hit[0]) if pr == "eq" and const(r) is not None and ldf(l) == "kind"]
            if not got:
                return None
            ks.add(got[0])
        return ks

    def argonly(name):
        """argument numbers the raising conditions are about, None if they are about anything else"""
        g = next((x for x in rt.unique() if x.name == name), None)
        prim = {"rti_throw", "rti_co_throw"}
        out = set()
        for q in Walker(rt, vn=True, max_paths=5000).paths(g):
            hit = [n for n, e in enumerate(q.ev) if e.k == "call" and (e.name in prim or e.name in raisers and raisers[e.name])]
            if not hit:
                continue
            cs = [e for e in q.ev[:hit[0]] if e.k == "assume"]
            if not cs:
                return None
            last = cs[-1].cond
            xs = {x for x in subexprs(last) if x[0] in ("a", "ld", "call")}
            if not xs or any(x[0] != "a" for x in xs):
                return None
            out |= {x[1] for x in xs}
        return out

    sites = 0
    for g in fns:
        for i in list(g.insts()):
            ns = rtname(g, i)
            if not ns or any(n in TEST for n in ns):
                continue
            hot = [n for n in ns if n in raisers and raisers[n]]
            if not hot or hot[0] in ("co_throw_error", "throw_index_out_error", "co_resume_error"):
                continue
            sites += 1
            c.unit(g)
            n = hot[0]
            # constant arguments cannot be out of range
            ao = argonly(n)
            if ao is not None and i.callee == "push_rt_call":
                ops = [strip_casts(static_expr(g, o)) for o in i.ops[4:]]
                if all(a < len(ops) and ops[a][0] == "call" and ops[a][1] in ("int_operand", "bool_operand") for a in ao):
                    c.ok("tested", "%s %s (constant arguments)" % (g.name, n))
                    continue
            todo, seen, bad = [(g, i)], set(), []
            while todo:
                f, j = todo.pop()
                if (f.name, j.id, j.bb) in seen:
                    continue
                seen.add((f.name, j.id, j.bb))
                for x in next_from(f, j.bb, [id(y) for y in f.blocks[j.bb]].index(id(j)) + 1):
                    if x is None:
                        for cl in p.callers(f.name):
                            if cl.fn.file.startswith("src/"):
                                todo.append((cl.fn, cl))
                    elif not is_test(*x):
                        bad.append(x)
            if bad and kinds(n):
                ks = kinds(n)
                # decide per path: the test may be left out where the kind is known to be another one
                bad = kind_paths(c, p, L, g, i, ks, is_test, pure)
            c.check("tested", "%s %s" % (g.name, n), not bad, "%s:%s" % (g.name, n), i.loc,
                    "%s emits a call of %s, which can raise, and continues%s without a test for the error" % (g.name, n, " at %s" % bad[0][1].loc if bad and bad[0] else ""))
    c.need(sites >= 6, "implicit calls that can raise not found")

    # ---------------------------------------------------------------- calls
    def calls():
        n = 0
        for g in fns:
            cs = [i for i in g.insts() if i.op == "call" and i.callee == "lir_op_new" and const(static_expr(g, i.ops[0])) == p.enum("LIR_OPCODE_CALL")]
            if not cs or not g.file.endswith("linear.c"):
                continue
            c.unit(g)
            hit = 0
            for i in cs:
                # forward from the construction of the call: the branch on is_errable guards the test
                out = errable_next(g, i)
                for what, loc, ok in out:
                    hit += 1
                    n += 1
                    c.check("calls", g.name, ok, g.name + ":" + what, loc, "%s: %s" % (g.name, what))
        c.need(n >= 1, "call lowering not found")

    def errable_next(g, i):
        res = []
        pos = [id(y) for y in g.blocks[i.bb]].index(id(i))
        # the push of the call itself
        st, seen = [(i.bb, pos + 1, False, None)], set()
        while st:
            b, k, pushed, err = st.pop()
            if (b, k, pushed, err) in seen:
                continue
            seen.add((b, k, pushed, err))
            stop = False
            for j in g.blocks[b][k:]:
                if j.op == "ret":
                    if err is not False:
                        res.append(("ends without an error test after a fallible call", j.loc, False))
                    else:
                        res.append(("infallible call", j.loc, True))
                if j.op == "call" and j.callee:
                    h = p.resolve(g.tu, j.callee)
                    em = j.callee in PUSH or h is not None and emits(h)
                    if not em:
                        continue
                    if not pushed:
                        pushed = True
                        continue
                    ok = err is False or is_test(g, j)
                    res.append(("tests for the error after the call" if ok else "generates more code after a fallible call before testing for the error", j.loc, ok))
                    stop = True
                    break
            if stop:
                continue
            t = g.blocks[b][-1]
            if t.op == "br" and len(t.x) == 2:
                e = static_expr(g, t.ops[0])
                neg = False
                while e[0] == "not":
                    e, neg = e[1], not neg
                if e[0] == "cmp" and const(e[3]) == 0:
                    neg = neg != (e[1] == "eq")
                    e = e[2]
                e = strip_casts(e)
                k2 = key_of(e)
                if k2 and k2[1] == "is_errable":
                    st.append((t.x[0], 0, pushed, not neg if err is None else err))
                    st.append((t.x[1], 0, pushed, neg if err is None else err))
                    continue
            for n in g.succ[b]:
                st.append((n, 0, pushed, err))
        return res
    c.section(calls)

    # ---------------------------------------------------------------- where the error goes
    def target():
        n = 0
        for g in fns:
            ns = [x for i in g.insts() for x in (rtname(g, i) or ())]
            if not any(x in TEST for x in ns):
                continue
            c.unit(g)
            for q in Walker(p, vn=True, pure=pure, blocks=True, max_paths=5000).paths(g):
                if q.dead:
                    continue
                ops = L.emitted(q)
                if not any(o.code == "RT_CALL" and o.rt in TEST for o in ops):
                    continue
                n += 1
                depth = None
                for pr, l, r, ev in known(q):
                    if mentions_field(l, "catch_error_labels") and const(r) is not None:
                        depth = {("sgt", 0): True, ("ugt", 0): True, ("ne", 0): True, ("eq", 0): False, ("sle", 0): False, ("sge", 1): True, ("slt", 1): False, ("ule", 0): False}.get((pr, const(r)), depth)
                t = next(o for o in ops if o.code == "RT_CALL" and o.rt in TEST)
                if t.rt == "co_has_panic":
                    f = strip_casts(t.args[0])
                    fv = f[3] if f[0] == "call" and f[1] == "bool_operand" else None
                    v = const(fv) if fv is not None else None
                    if v is None and fv is not None and mentions_field(fv, "catch_error_labels"):
                        v = -2
                    c.check("target", g.name + " catch flag", v == -2 or (v is not None and depth is not None and bool(v) == depth), g.name + ":flag", t.loc,
                            "%s tells the runtime that a panic %s although it %s" % (g.name, "is caught" if v else "is not caught", "is not" if v else "is"), q.trace())
                good = True
                seen = set()
                for fl, (kind, lab) in L.flows(ops):
                    tv = {}
                    for o, tk in fl:
                        tr = L.truth(o, tk) if tk is not None else None
                        if tr:
                            tv[tr[0]] = tr[1]
                    on = tv.get(t.r)
                    if on is None:
                        good = False
                        why = "the result of the test is not looked at"
                    elif on:
                        seen.add(1)
                        bal = [o for o, _ in fl if o.code == "GEN" and o.rt in LEAVES]
                        lb = strip_casts(lab) if lab is not None else None
                        want_catch = lb is not None and lb[0] == "call" and lb[1] == "stack_top" and mentions_field(lb, "catch_error_labels")
                        want_err = lb is not None and lb[0] == "ld" and key_of(lb) and key_of(lb)[1] == "error_label"
                        if kind != "exit":
                            good, why = False, "generated code goes on although the error test said yes"
                        elif depth is None or depth and not want_catch or not depth and not want_err:
                            good, why = False, "the error goes to %s although %s" % (show(lb) if lb else "nowhere", "a catch surrounds it" if depth else "no catch surrounds it")
                        elif bal and not (mentions_field(bal[0].args[2], "catch_error_labels")):
                            good, why = False, "the scopes to leave are not counted from the surrounding catch"
                    else:
                        seen.add(0)
                        if kind == "exit":
                            good, why = False, "generated code leaves although there is no error"
                good = good and seen == {0, 1}
                c.check("target", g.name, good, g.name + ":target", q.end_loc(), "%s: %s" % (g.name, why if not good and seen else "branches of the error test not found"), q.trace())
        c.need(n >= 2, "error test lowering not found")
        # leaving: unwinding first, then the jump to the given label
        g = p.need("linear_bal_error")
        c.unit(g)
        for q in Walker(p, vn=True, pure=pure, blocks=True).paths(g):
            if q.dead:
                continue
            ops = L.emitted(q)
            bal = [o for o in ops if o.code == "BAL"]
            ok = len(bal) == 1 and ops[-1] is bal[0] and strip_casts(L.label(bal[0].r)) == ("a", 1)
            c.check("target", g.name, ok, g.name, q.end_loc(), "linear_bal_error does not end with a jump to the target it is given", q.trace())
            un = [e for e in q.ev if e.k == "call" and "unwind" in e.name]
            c.check("target", g.name + " unwinds", any(strip_casts(a) == ("a", 2) for e in un for a in e.args), g.name + ":unwind", q.end_loc(),
                    "linear_bal_error does not leave the scopes inside the catch", q.trace())
    c.section(target)

    # ---------------------------------------------------------------- throw
    def throw():
        n = 0
        for g in fns:
            if not any("co_throw_error" in (rtname(g, i) or ()) for i in g.insts()):
                continue
            c.unit(g)
            for q in Walker(p, vn=True, pure=pure, blocks=True, max_paths=5000).paths(g):
                if q.dead:
                    continue
                n += 1
                ops = L.emitted(q)
                at = next((k for k, o in enumerate(ops) if o.code == "RT_CALL" and o.rt == "co_throw_error"), None)
                if at is None:
                    c.bad("throw", g.name + ":none", q.end_loc(), "%s does not record the error" % g.name, q.trace())
                    continue
                depth = None
                for pr, l, r, ev in known(q):
                    if mentions_field(l, "catch_error_labels") and const(r) == 0:
                        depth = pr in ("sgt", "ne", "ugt")
                err = strip_casts(ops[at].args[0])
                c.check("throw", g.name + " error", any(o.code == "MOVE" and strip_casts(o.r) == err for o in ops[:at]) or any(o.code == "GEN" and o.r is not None and strip_casts(o.r) == err for o in ops[:at]),
                        g.name + ":value", q.end_loc(), "%s raises something else than the thrown error" % g.name, q.trace())
                end = L.flows(ops)
                good = len(end) == 1 and end[0][1][0] == "exit"
                lab = end[0][1][1] if good else None
                lb = strip_casts(lab) if lab is not None else ("c", 0)
                if good and depth:
                    good = lb[0] == "call" and lb[1] == "stack_top" and mentions_field(lb, "catch_error_labels")
                elif good:
                    good = depth is False and mentions_field(lb, "end_label") or mentions_field(lb, "error_label")
                c.check("throw", g.name, good, g.name, q.end_loc(), "%s: after recording the error control goes to %s" % (g.name, show(lb)), q.trace())
        c.need(n >= 1, "throw lowering not found")
    c.section(throw)

    # ---------------------------------------------------------------- catch
    def catch():
        n = 0
        for g in fns:
            pushes = [i for i in g.insts() if i.op == "call" and i.callee in ("stack_push", "stack_pop") and mentions_field(static_expr(g, i.ops[0]), "catch_error_labels")]
            if not pushes or g.name.startswith("linear_emit_scope"):
                continue
            c.unit(g)
            for q in Walker(p, vn=True, pure=pure, blocks=True, max_paths=5000).paths(g):
                if q.dead:
                    continue
                st = []
                ops = L.emitted(q)
                for k, e in enumerate(q.ev):
                    if e.k == "call" and e.name in ("stack_push", "stack_pop") and mentions_field(e.args[0], "catch_error_labels"):
                        st.append((k, e))
                names = [e.name for _, e in st]
                if not names:
                    continue
                n += 1
                okb = names == ["stack_push", "stack_pop"]
                c.check("catch", g.name + " scope", okb, g.name + ":scope", q.end_loc(), "%s does not enter and leave the catch scope exactly once" % g.name, q.trace())
                if not okb:
                    continue
                lab = strip_casts(st[0][1].args[1])
                inner = [o for o in ops if st[0][0] < o.i < st[1][0]]
                c.check("catch", g.name + " protects", any(o.code == "GEN" for o in inner), g.name + ":protects", q.end_loc(), "%s lowers nothing inside the catch scope" % g.name, q.trace())
                after = [o for o in ops if o.i > st[1][0]]
                pos = next((k for k, o in enumerate(after) if o.code == "LABEL" and L.label(o.r) == lab), None)
                c.check("catch", g.name + " label", pos is not None, g.name + ":label", q.end_loc(), "%s never places the label errors are sent to" % g.name, q.trace())
                if pos is None:
                    continue
                skip = [o for o in after[:pos] if o.code == "BAL"]
                ends = [k for k, o in enumerate(after) if o.code == "LABEL" and skip and (L.label(o.r) == L.label(skip[-1].r))]
                c.check("catch", g.name + " skip", bool(skip) and after[pos - 1].code == "BAL", g.name + ":skip", q.end_loc(), "%s: without an error the catch body is not jumped over" % g.name, q.trace())
                takes = [k for k, o in enumerate(after) if o.code == "RT_CALL" and o.rt == "co_remove_error"]
                fin = skip and next((k for k, o in enumerate(after) if k > pos and ("output" in repr(L.label(skip[-1].r)) and isinstance(o.ev.args[1], tuple) and strip_casts(o.ev.args[1]) in list(subexprs(L.label(skip[-1].r))) if o.ev.name == "linked_push" else False)), None)
                c.check("catch", g.name + " end", fin is not None and fin == len(after) - 1, g.name + ":end", q.end_loc(), "%s: without an error control does not continue after the catch body" % g.name, q.trace())
                bod = [k for k, o in enumerate(after) if o.code == "GEN" and k > pos and any(mentions_field(a, "catch_body") for a in o.args)]
                c.check("catch", g.name + " takes", len(takes) == 1 and takes[0] > pos and len(bod) == 1 and takes[0] < bod[0] and after[takes[0]].r is not None, g.name + ":takes", q.end_loc(),
                        "%s does not take the error before the catch body runs" % g.name, q.trace())
        c.need(n >= 2, "catch lowering not found")
    c.section(catch)

    # ---------------------------------------------------------------- defers during an error
    def defers():
        n = 0
        emit = {g.name for g in fns if g.name == "linear_unwind_scopes" or any(i.op == "call" and i.callee == "linear_unwind_scopes" for i in g.insts())}
        for g in fns:
            if g.name not in ("linear_bal_error",) and not any("co_throw_error" in (rtname(g, i) or ()) for i in g.insts()):
                continue
            for q in Walker(p, vn=True, pure=pure, blocks=True, max_paths=5000, inline=lambda h: h.file == g.file and "unwind" in h.name and h.name not in ("linear_unwind_scopes",) or h.name == "linear_bal_error").paths(g):
                if q.dead:
                    continue
                ops = L.emitted(q)
                held = None
                thrown = g.name == "linear_bal_error"
                for o in ops:
                    if o.code == "RT_CALL" and o.rt == "co_throw_error":
                        thrown = True
                    if o.code == "RT_CALL" and o.rt == "co_hold_error":
                        held = o.r
                    elif o.code == "RT_CALL" and o.rt == "co_resume_error":
                        c.check("defers", g.name + " resume", held is not None and o.args[0] == held, g.name + ":resume", o.loc, "%s puts back another error than the one set aside" % g.name, q.trace())
                        held = None
                    elif o.code == "GEN" and "unwind" in o.rt and thrown:
                        n += 1
                        c.check("defers", g.name, held is not None, g.name + ":pending", o.loc, "%s runs defers while the error is still pending, a call in a defer would take it for its own" % g.name, q.trace())
                c.check("defers", g.name + " end", held is None, g.name + ":end", q.end_loc(), "%s leaves without putting back the error it set aside" % g.name, q.trace())
        c.need(n >= 2, "unwinding because of an error not found")
    c.section(defers)

    # ---------------------------------------------------------------- semantic check
    def fallible():
        g = p.need("infer_call")
        c.unit(g)
        n = 0
        for q in Walker(p, vn=True, pure=pure, max_paths=20000).paths(g):
            if q.dead:
                continue
            f = {}
            for e in q.ev:
                if e.k != "assume":
                    continue
                x, t = e.cond, bool(e.truth)
                while x[0] == "not":
                    x, t = x[1], not t
                if x[0] == "cmp" and const(x[3]) == 0:
                    t = t if x[1] in ("ne", "sgt") else not t
                    x = x[2]
                x = strip_casts(x)
                k = key_of(x)
                if k:
                    f.setdefault((k[1], "current_fn" if mentions_field(x, "current_fn") else ""), t)
                if x == ("a", g.sret and 4 or 3):
                    f["check"] = t
            if f.get(("is_errable", "")) is False or f.get("check") is False:
                c.ok("fallible", "infallible or unchecked call")
                continue
            n += 1
            ok = f.get(("is_errable", "current_fn")) or f.get(("be_caught", ""))
            err = any(e.k == "call" and e.name in ("dump_errorf", "push_errorf", "exit", "assertf") for e in q.ev)
            c.check("fallible", "infer_call", ok or err, "infer_call", q.end_loc(), "a call of a fallible function is accepted although neither a catch nor the function passes the error on", q.trace())
        c.need(n > 0, "fallible calls not found in infer_call")
        unchecked = [i for i in p.callers("infer_call") if const(static_expr(i.fn, i.ops[-1])) == 0]
        c.check("fallible", "unchecked callers", len(unchecked) == 1, "infer_call:unchecked", unchecked[0].loc if unchecked else "", "calls other than those started as coroutines skip the fallible test: " + ", ".join(i.loc for i in unchecked))
        # be_caught brackets
        for g in p.unique():
            if not g.file.startswith("src/semantic/") or not any(i.op == "store" and (addr_key(static_expr(g, i.ops[1])) or (0, 0))[1] == "be_caught" for i in g.insts()):
                continue
            c.unit(g)
            for q in Walker(p, vn=True, pure=pure, max_paths=20000).paths(g):
                if q.dead:
                    continue
                lv = 0
                for e in q.ev:
                    if e.k == "store" and addr_key(e.addr) and addr_key(e.addr)[1] == "be_caught":
                        t, k = linear(e.val)
                        lv = k if t else None
                    elif e.k == "call" and e.name.startswith("infer_") and e.args:
                        inside = any(mentions_field(a, "try_expr") or mentions_field(a, "try_body") for a in e.args)
                        if inside:
                            c.check("fallible", g.name + " protects", lv == 1, g.name + ":protects", e.loc, "%s checks the protected part without marking it as caught" % g.name, q.trace())
                        elif any(mentions_field(a, "catch_body") for a in e.args):
                            c.check("fallible", g.name + " body", lv == 0, g.name + ":body", e.loc, "%s checks the catch body as if its errors were caught" % g.name, q.trace())
                c.check("fallible", g.name, lv == 0, g.name + ":balance", q.end_loc(), "%s leaves calls after it marked as caught" % g.name, q.trace())
        # the mark travels with the type of the function
        for g in p.unique():
            if not g.file.startswith("src/semantic/"):
                continue
            st = {}
            for i in g.insts():
                if i.op == "store":
                    k = addr_key(static_expr(g, i.ops[1]))
                    if k and k[0] == "type_fn_t":
                        st.setdefault(k[1], []).append(i)
            if "return_type" in st or "param_types" in st:
                v = [static_expr(g, i.ops[0]) for i in st.get("is_errable", ())]
                fd = any(key_of(strip_casts(x)) and key_of(strip_casts(x))[0] == "ast_fndef_t" for i in g.insts() if i.op == "store" for x in subexprs(static_expr(g, i.ops[0])) if x[0] == "ld")
                if fd and ("param_types" in st):
                    c.check("fallible", g.name + " type", bool(v) and all(ldf(x) == "is_errable" or const(x) for x in v), g.name + ":type", g.loc,
                            "%s builds the type of a function without saying whether it is fallible" % g.name)
    c.section(fallible)


def kind_paths(c, p, L, g, i, ks, is_test, pure):
    bad = []
    for q in Walker(p, vn=True, pure=pure, blocks=True, max_paths=20000).paths(g):
        if q.dead:
            continue
        at = next((k for k, e in enumerate(q.ev) if e.k == "call" and e.ins is i), None)
        if at is None:
            continue
        nots, eqs = set(), set()
        for pr, l, r, _ in known(q):
            if ldf(l) == "kind" and const(r) is not None:
                (eqs if pr == "eq" else nots).add(const(r)) if pr in ("eq", "ne") else None
        if eqs and not eqs & ks or ks <= nots:
            continue
        nx = next((e for e in q.ev[at + 1:] if e.k == "call" and (e.name in PUSH or (p.resolve(g.tu, e.name) is not None and L.reach(p.resolve(g.tu, e.name))))), None)
        if nx is None or not is_test(g, nx.ins):
            bad.append((g, nx.ins if nx else i))
    return bad


main("R02", TECH, body)
