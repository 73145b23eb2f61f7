"""R08: every runtime lock taken is released exactly once on every path; locks nest in one global order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *

TECH = ("lock typestate over LLVM IR: on every path of every function that touches a lock the set of held locks is tracked by lock identity "
        "(callees with a net effect are inlined, hand-over at suspension is applied), plus a whole-program lock-order graph over lock classes")

LOCK = {"pthread_mutex_lock", "pthread_spin_lock", "mutex_lock", "uv_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"}
TRY = {"pthread_mutex_trylock", "pthread_spin_trylock", "mutex_trylock", "mutex_times_trylock", "uv_mutex_trylock"}
UNLOCK = {"pthread_mutex_unlock", "pthread_spin_unlock", "mutex_unlock", "uv_mutex_unlock", "pthread_rwlock_unlock"}
ALL = LOCK | TRY | UNLOCK
YIELD = "co_yield_waiting"
SUSPEND = {"acosw"}
PRIM_FILES = ("utils/mutex.c",)


def U(e):
    return unversion(strip_all(e))


def cls(a):
    """class of a lock: the structure field or global it is"""
    a = strip_casts(a)
    if a[0] == "set":
        return cls(a[1])
    k = addr_key(a)
    if k:
        if k[0] == "global":
            return k[1]
        # locks embedded in a global structure are one lock
        r = a
        while r[0] in ("fld", "idx"):
            r = strip_casts(r[1])
        if r[0] == "g":
            return "%s.%s" % (r[1], k[1])
        return "%s.%s" % k
    if a[0] == "ld":
        k = addr_key(a[1])
        if k:
            return "*%s.%s" % k if k[0] != "global" else "*" + k[1]
    return None


def body(c):
    c.rule("balance", "on every path a function releases every lock it took, exactly once, before it returns", 60)
    c.rule("release", "no path releases a lock it does not hold", 60)
    c.rule("relock", "no path takes a lock again that it already holds", 60)
    c.rule("suspend", "no lock is held when the coroutine is suspended or another one is resumed, apart from the lock handed over to be released after the switch", 3)
    c.rule("order", "locks nest in one acyclic global order", 3)
    c.rule("primitive", "the lock wrappers take, try and release exactly the system lock they stand for and report its result", 3)

    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))

    def inscope(g):
        return not g.file.startswith(("runtime/mbedtls", "runtime/libuv")) and g.file not in PRIM_FILES
    fns = [g for g in p.unique() if inscope(g)]
    direct = [g for g in fns if any(i.op == "call" and (i.callee in ALL or i.callee == YIELD) for i in g.insts())]
    c.need(len(direct) >= 30, "lock users not found")
    susp = CReach(p, SUSPEND)
    exported = bound_names(c)

    # loops that lock or unlock a whole set of locks: the function only locks or only unlocks, inside a loop, a varying lock
    def in_cycle(g, blk):
        return any(blk in g.reach(n) for n in g.succ[blk])

    def set_op(g):
        ops = [i for i in g.insts() if i.op == "call" and i.callee in LOCK | UNLOCK]
        if not ops:
            return None
        k = {"L" if i.callee in LOCK else "U" for i in ops}
        if len(k) != 1 or not any(in_cycle(g, i.bb) for i in ops):
            return None
        if not any(x[0] == "phi" for i in ops for x in subexprs(static_expr(g, i.ops[0]))):
            return None     # always the same lock
        classes = {cls(static_expr(g, i.ops[0])) for i in ops}
        if len(classes) != 1 or None in classes:
            return None
        return k.pop(), classes.pop()
    sets = {}
    for g in direct:
        s = set_op(g)
        if s and len(list(p.callers(g.name))) + (1 if used_as_value(p, g) else 0) > 0:
            sets[g.name] = s

    summ = {}      # helper name -> list of nets
    helpers = set()

    def try_result(q, e):
        """True: acquired on this path, False: not, None: unknown"""
        for pr, l, r, _ in known(q):
            l2 = strip_casts(l)
            if l2 == strip_casts(e.res) and const(r) is not None:
                k = const(r)
                if pr == "eq":
                    return k == 0
                if pr == "ne" and k == 0:
                    return False
                if pr in ("slt",) and k == 0:
                    return False
                if pr == "sge" and k == 0:
                    return True
        return None

    def run(q):
        """(held at end, released without holding, relocked, events) on one path"""
        held, bad_rel, relock, nest, calls = [], [], [], [], []
        for e in q.ev:
            if e.k != "call" or not isinstance(e.name, str):
                continue
            n = e.name
            if n in LOCK or n in TRY and try_result(q, e):
                a = U(e.args[0])
                if a in held:
                    relock.append((a, e))
                for h in held:
                    nest.append((h, a, e))
                held.append(a)
            elif n in TRY and try_result(q, e) is None:
                ret = q.ev[-1] if q.ev and q.ev[-1].k == "ret" else None
                if ret is not None and ret.val is not None and strip_casts(ret.val) == strip_casts(e.res):
                    continue
                bad_rel.append((("untested", U(e.args[0])), e))
            elif n in UNLOCK:
                a = U(e.args[0])
                if a in held:
                    held.remove(a)
                else:
                    bad_rel.append((a, e))
            elif n in sets:
                k, cl = sets[n]
                a = ("set", ("g", cl))
                if k == "L":
                    if a in held:
                        relock.append((a, e))
                    for h in held:
                        nest.append((h, a, e))
                    held.append(a)
                elif a in held:
                    held.remove(a)
                else:
                    bad_rel.append((a, e))
            elif n == YIELD:
                f = fnname(e.args[1]) if len(e.args) > 1 else None
                if f:
                    if f in sets:
                        a = ("set", ("g", sets[f][1]))
                        if a in held:
                            held.remove(a)
                        else:
                            bad_rel.append((a, e))
                    else:
                        g = p.resolve(e.ins.fn.tu, f)
                        if g is not None:
                            for x in yield_release(g, e):
                                if x in held:
                                    held.remove(x)
                                else:
                                    bad_rel.append((x, e))
                calls.append((list(held), e))
            elif held:
                calls.append((list(held), e))
        return held, bad_rel, relock, nest, calls

    def yield_release(g, e):
        """locks the hand-over function releases, in terms of the suspension's arguments"""
        out = None
        for q in walk(g):
            if q.dead:
                continue
            h, b, r, n, _ = run(q)
            got = sorted((rebase_arg(x, e) for x, _ in b), key=repr)
            for x in h:
                c.bad("balance", "%s:%s" % (g.name, cls(x)), q.end_loc(), "%s, run after a suspension, returns while still holding %s" % (g.name, show_lock(x)), q.trace())
            if out is not None and out != got:
                c.bad("release", "%s:differs" % g.name, q.end_loc(), "%s, run after a suspension, releases different locks on different paths" % g.name, q.trace())
            out = got
        return out or []

    def rebase_arg(x, e):
        # unlock_fn(co, arg): arg is the third argument of the suspension
        if x == ("a", 1):
            return U(e.args[2])
        if x == ("a", 0):
            return U(e.args[0])
        return x

    cache = {}

    def walk(g, loops=1):
        if g.name in cache:
            return cache[g.name]
        w = Walker(p, inline=lambda x: x.name in helpers and x is not g, vn=True, loops=loops, max_paths=40000,
                   pure=UNLOCK)
        cache[g.name] = list(w.paths(g))
        return cache[g.name]

    handover = set()
    for f in fns:
        for i in f.insts():
            if i.op == "call" and i.callee == YIELD:
                h = fnname(static_expr(f, i.ops[1]))
                if h:
                    handover.add(h)

    def netof(rs):
        net = set()
        for q, r in rs:
            net |= {(False, cls(h)) for h in r[0]} | {(True, cls(x)) for x, _ in r[1] if x[0] != "untested"}
        return net

    def partner(g, callers, rel, cl):
        """does a caller itself, or another function it calls, undo the net effect"""
        for f in callers:
            for i in f.insts():
                if i.op != "call" or not i.callee:
                    continue
                if i.callee in ALL and (i.callee in UNLOCK) != rel and cls(U(static_expr(f, i.ops[0]))) in (cl, None):
                    return True
                if i.callee in sets and (sets[i.callee][0] == "U") != rel and sets[i.callee][1] == cl:
                    return True
                if i.callee != g.name and (not rel, cl) in rough.get(i.callee, ()):
                    return True
                if i.callee == YIELD and not rel:
                    return True
        return False

    # fixpoint: functions with a uniform net effect become helpers and are inlined in their callers
    work = [g for g in direct if g.name not in sets]
    todo = list(work)
    rough = {}
    for g in work:
        rough[g.name] = netof([(q, run(q)) for q in walk(g) if not q.dead])
        cache.pop(g.name)
    seen = {g.name: g for g in work}
    result = {}
    needs = set()
    rounds = 0
    while todo:
        rounds += 1
        c.need(rounds < 2000, "lock analysis does not terminate")
        g = todo.pop(0)
        cache.pop(g.name, None)
        nets = {}
        rs = []
        for q in walk(g):
            if q.dead or null_after_use(q):
                continue
            r = run(q)
            # a lock of the caller that is given up for a while and taken again: no net effect, but the caller must hold it
            for x, e in list(r[1]):
                if x in r[0]:
                    r[0].remove(x)
                    r[1].remove((x, e))
                    needs.add(g.name)
            rs.append((q, r))
            ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
            key = (tuple(sorted(map(repr, r[0]))), tuple(sorted(repr(x) for x, _ in r[1])))
            nets.setdefault(key, []).append(const(ret) if ret is not None else None)
        result[g.name] = rs
        eff = [k for k in nets if k != ((), ())]
        if not eff and g.name not in needs:
            continue
        uniform = len(nets) == 1
        byret = not uniform and all(v is not None for vs in nets.values() for v in vs) and \
            not any(set(a) & set(b) for ka, a in nets.items() for kb, b in nets.items() if ka != kb)
        callers = [i.fn for i in p.callers(g.name) if inscope(i.fn)]
        used = g.name in handover and not callers
        if (uniform or byret or g.internal and callers) and (callers or used) and g.name not in helpers and g.name not in exported and \
                (used or all(partner(g, callers, rel, cl) for rel, cl in netof(rs))):
            # only locks named in terms of arguments or globals can be the caller's business
            helpers.add(g.name)
            for f in callers:
                if f.name not in seen:
                    seen[f.name] = f
                if f not in todo:
                    todo.append(f)

    # ------------------------------------------------------------------ helpers must be paired by a caller
    def touched(q):
        out = set()
        for e in q.ev:
            if e.k == "call" and isinstance(e.name, str):
                if e.name in ALL:
                    out.add((e.name in UNLOCK, cls(U(e.args[0]))))
                elif e.name in sets:
                    out.add((sets[e.name][0] == "U", sets[e.name][1]))
        return out
    for name in sorted(helpers):
        if name in handover:
            continue
        net = netof(result[name])
        callers = {i.fn.name for i in p.callers(name)}
        for rel, cl in net:
            ok = any((not rel, cl) in touched(q) for f in callers if f in result for q, _ in result[f])
            c.check("balance", name + " paired", ok, "%s:%s:net" % (name, cl), seen[name].loc if hasattr(seen[name], "loc") else "%s:%d" % (seen[name].file, seen[name].line),
                    "%s %s %s and no caller %s it" % (name, "releases" if rel else "returns holding", cl, "takes" if rel else "releases"))

    # ------------------------------------------------------------------ functions whose lock calls lie on no complete path: plain dataflow
    def flow(g):
        states = {0: {()}}
        work = [0]
        while work:
            b = work.pop()
            for st in list(states[b]):
                held = list(st)
                stop = False
                for i in g.blocks[b].insts if hasattr(g.blocks[b], "insts") else g.blocks[b]:
                    if i.op in ("ret",):
                        c.check("balance", g.name, not held, "%s:%s" % (g.name, ",".join(str(cls(h)) for h in held)), i.loc, "%s returns while still holding %s" % (g.name, ", ".join(map(show_lock, held))))
                    if i.op != "call" or not isinstance(i.callee, str):
                        continue
                    if i.callee in TRY:
                        raise AnalysisError("%s: try-lock in a function that is not enumerable" % g.name)
                    if i.callee in LOCK or i.callee in UNLOCK or i.callee in sets:
                        if i.callee in sets:
                            lk, a = sets[i.callee][0] == "L", ("set", ("g", sets[i.callee][1]))
                        else:
                            lk, a = i.callee in LOCK, U(static_expr(g, i.ops[0]))
                        if lk:
                            c.check("relock", g.name, a not in held, "%s:%s" % (g.name, cls(a)), i.loc, "%s takes %s again while holding it" % (g.name, show_lock(a)))
                            if a in held:
                                stop = True
                                break
                            held.append(a)
                        else:
                            c.check("release", g.name, a in held, "%s:%s" % (g.name, cls(a)), i.loc, "%s releases %s which it does not hold" % (g.name, show_lock(a)))
                            if a not in held:
                                stop = True
                                break
                            held.remove(a)
                    elif held:
                        g2 = p.resolve(g.tu, i.callee)
                        if i.callee == YIELD or i.callee in SUSPEND or g2 is not None and susp(g2, {n: v for n, v in ((n, const(static_expr(g, o))) for n, o in enumerate(i.ops)) if v is not None}):
                            c.bad("suspend", "%s:%s" % (g.name, i.callee), i.loc, "%s calls %s while holding %s" % (g.name, i.callee, ", ".join(map(show_lock, held))))
                        if g2 is not None:
                            for ca, where in acq(g2).items():
                                for h in held:
                                    if cls(h):
                                        edges.setdefault((cls(h), ca), (g.name, "%s (through %s)" % (i.loc, i.callee)))
                if stop:
                    continue
                for n in g.succ[b]:
                    if tuple(held) not in states.setdefault(n, set()):
                        states[n].add(tuple(held))
                        c.need(len(states[n]) < 64, "%s: too many lock states" % g.name)
                        work.append(n)
                        work = list(dict.fromkeys(work))
    flows = []
    for g in list(seen.values()):
        cov = {id(e.ins) for q, _ in result.get(g.name, ()) for e in q.ev if e.k == "call"}
        if any(i.op == "call" and i.callee in ALL and id(i) not in cov for i in g.insts()) or not result.get(g.name):
            flows.append(g)

    edges = {}
    acq = Acquire(p, sets)

    for name, rs in sorted(result.items()):
        g = seen[name]
        c.unit(g)
        helper = name in helpers
        for q, (held, bad, rel, nest, calls) in rs:
            if not helper:
                for h in held:
                    c.bad("balance", "%s:%s" % (name, cls(h)), q.end_loc(), "%s returns while still holding %s" % (name, show_lock(h)), q.trace())
                if not held:
                    c.ok("balance", name)
                for x, e in bad:
                    if x[0] == "untested":
                        c.bad("balance", "%s:%s:try" % (name, cls(x[1])), e.loc, "%s does not test whether it got %s" % (name, show_lock(x[1])), q.trace())
                    else:
                        c.bad("release", "%s:%s" % (name, cls(x)), e.loc, "%s releases %s which it does not hold" % (name, show_lock(x)), q.trace())
                if not bad:
                    c.ok("release", name)
            for a, e in rel:
                c.bad("relock", "%s:%s" % (name, cls(a)), e.loc, "%s takes %s again while holding it" % (name, show_lock(a)), q.trace())
            if not rel:
                c.ok("relock", name)
            for h, a, e in nest:
                ch, ca = cls(h), cls(a)
                if ch and ca:
                    edges.setdefault((ch, ca), (name, e.loc))
            for hs, e in calls:
                g2 = p.resolve(e.ins.fn.tu, e.name)
                if e.name == YIELD or e.name in SUSPEND or (g2 is not None and susp(g2, {n: const(a) for n, a in enumerate(e.args) if const(a) is not None})):
                    c.check("suspend", "%s %s" % (name, e.name), not hs, "%s:%s" % (name, e.name), e.loc,
                            "%s calls %s, which can suspend or switch coroutines, while holding %s" % (name, e.name, ", ".join(map(show_lock, hs))), q.trace())
                if g2 is not None:
                    for ca, where in acq(g2).items():
                        for h in hs:
                            ch = cls(h)
                            if ch:
                                edges.setdefault((ch, ca), (name, "%s (through %s)" % (e.loc, e.name)))

    for g in flows:
        c.unit(g)
        flow(g)
    c.notes.append("analysed by plain dataflow: " + ", ".join(g.name for g in flows))

    # ------------------------------------------------------------------ lock sets: each element exactly once
    def setfn(name):
        g = p.need(name)
        c.unit(g)
        n = 0
        for q in Walker(p, vn=True, loops=3, max_paths=40000, pure=ALL).paths(g):
            if q.dead or null_after_use(q):
                continue
            eq, zero = {}, set()

            def find_(x):
                x = canon(x)
                while x in eq:
                    x = eq[x]
                return x
            vals = []
            for pr, l, r, ev in known(q):
                if pr == "eq":
                    if const(r) == 0:
                        zero.add(find_(strip_casts(l)))
                    else:
                        a, b = find_(strip_casts(l)), find_(strip_casts(r))
                        if a != b:
                            eq[a] = b
            ops = [strip_casts(strip_casts(e.args[0])[1]) for e in q.ev if e.k == "call" and e.name in ALL]
            for e in q.ev:
                for x in ([e.cond] if e.k == "assume" else e.args if e.k == "call" else ()):
                    for y in subexprs(x):
                        y = strip_casts(y)
                        if y[0] == "ld" and any(addr_key(y[1]) == addr_key(o[1]) for o in ops if o[0] == "ld") and y not in vals:
                            vals.append(y)
            got = [find_(o) for o in ops]
            n += 1
            for v in vals:
                if find_(v) in {find_(z) for z in zero}:
                    continue
                c.check("balance", name + " element", got.count(find_(v)) == 1, name + ":element", q.end_loc(),
                        "%s handles the lock of one element %d times" % (name, got.count(find_(v))), q.trace())
        c.need(n >= 3, "no path of %s" % name)
    for name in sorted(sets):
        c.section(setfn, name)

    # ------------------------------------------------------------------ order
    rec = recursive_locks(p)
    adj = {}
    for (a, b), w in edges.items():
        if a != b:
            adj.setdefault(a, {})[b] = w
    for (a, b), (fn, loc) in sorted(edges.items()):
        if a == b:
            if a in rec:
                continue
            # two locks of one class: only the ordered set operation may do that
            c.check("order", "%s nested" % a, False, "%s>%s" % (a, b), loc, "%s takes a second %s lock while holding one, without a defined order" % (fn, a))
            continue
        path = find(adj, b, a)
        c.check("order", "%s before %s" % (a, b), not path, "%s>%s" % (a, b), loc,
                "%s takes %s while holding %s, but %s is also taken while holding %s (%s)" % (fn, b, a, path[-1] if path else "", b, adj.get(b, {}).get(path[1], ("?", "?"))[1] if path and len(path) > 1 else ""))
    c.notes.append("lock order: " + "; ".join("%s < %s" % k for k in sorted(edges) if k[0] != k[1]))

    def prims():
        for n, sysn in (("mutex_lock", "pthread_mutex_lock"), ("mutex_trylock", "pthread_mutex_trylock"), ("mutex_unlock", "pthread_mutex_unlock")):
            g = p.need(n)
            c.unit(g)
            for q in Walker(p, vn=True).paths(g):
                if q.dead:
                    continue
                cs = [e for e in q.ev if e.k == "call" and e.name.startswith(("pthread_", "uv_mutex"))]
                ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
                ok = len(cs) == 1 and cs[0].name == sysn and U(cs[0].args[0])[:2] == ("fld", ("a", 0)) and ret is not None and strip_casts(ret) == strip_casts(cs[0].res)
                ok = ok or (len(cs) == 1 and cs[0].name == sysn and ret is not None and const(ret) is not None and (const(ret) == 0) == (try_known(q, cs[0]) is True))
                c.check("primitive", n, ok, n, q.end_loc(), "%s does not perform exactly one %s on its lock and return its result" % (n, sysn), q.trace())
        g = p.need("mutex_times_trylock")
        for q in Walker(p, vn=True, loops=2).paths(g):
            if q.dead:
                continue
            got = [try_result(q, e) for e in q.ev if e.k == "call" and e.name == "mutex_trylock"]
            ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
            k = const(ret) if ret is not None else None
            c.check("primitive", "mutex_times_trylock", k is not None and (k == 0) == (True in got) and got.count(True) <= 1, "mutex_times_trylock", q.end_loc(),
                    "mutex_times_trylock does not report whether it took the lock", q.trace())

    def try_known(q, e):
        return try_result(q, e)
    c.section(prims)


def show_lock(a):
    if a[0] == "set":
        return "the set of %s locks" % a[1][1]
    return "%s" % show(a)


def find(adj, a, b):
    st, seen = [(a, (a,))], set()
    while st:
        x, path = st.pop()
        if x == b:
            return path
        if x in seen:
            continue
        seen.add(x)
        for y in adj.get(x, ()):
            st.append((y, path + (y,)))
    return None


class Acquire:
    """lock classes a function may take, transitively through direct calls"""

    def __init__(s, p, sets):
        s.p, s.sets, s.memo, s.direct = p, sets, {}, {}

    def own(s, f):
        k = (f.tu, f.name)
        if k not in s.direct:
            out = {}
            for i in f.insts():
                if i.op == "call" and i.callee in LOCK | TRY and f.file not in PRIM_FILES:
                    cl = cls(static_expr(f, i.ops[0]))
                    if cl:
                        out[cl] = f.name
            s.direct[k] = out
        return s.direct[k]

    def __call__(s, fn):
        k = (fn.tu, fn.name)
        if k in s.memo:
            return s.memo[k]
        out, seen, st = {}, set(), [fn]
        while st:
            f = st.pop()
            kk = (f.tu, f.name)
            if kk in seen or f.file.startswith(("runtime/mbedtls", "runtime/libuv")):
                continue
            seen.add(kk)
            for cl, w in s.own(f).items():
                out.setdefault(cl, w)
            for i in f.insts():
                if i.op == "call" and i.callee:
                    g = s.p.resolve(f.tu, i.callee)
                    if g is not None:
                        st.append(g)
        s.memo[k] = out
        return out


def recursive_locks(p):
    out = set()
    for f in p.unique():
        for i in f.insts():
            if i.op == "call" and i.callee == "mutex_init" and len(i.ops) > 1:
                if const(static_expr(f, i.ops[1])) not in (0, None):
                    cl = cls(static_expr(f, i.ops[0]))
                    if cl:
                        out.add(cl)
    return out


_val = {}


def canon(e):
    """the expression with array indexes in linear normal form, without load versions"""
    e = strip_casts(e)
    if e[0] == "ld":
        return ("ld", canon(e[1]))
    if e[0] == "fld":
        return ("fld", canon(e[1])) + tuple(e[2:])
    if e[0] == "idx":
        t, k = linear(e[2])
        return ("cidx", canon(e[1]), tuple(sorted((repr(canon(x)), n) for x, n in t.items())), k, e[3])
    return e


def bound_names(c):
    """native names reachable from compiled code: standard library bindings and implicit runtime calls"""
    import re
    out = set()
    root = os.environ.get("VERIF_REPO", "/repo")
    for d, _, fs in os.walk(os.path.join(root, "std")):
        for f in fs:
            if f.endswith(".n"):
                out |= set(re.findall(r"#linkid\s+(\w+)", open(os.path.join(d, f), errors="replace").read()))
    out |= set(re.findall(r'#define\s+RT_CALL_\w+\s+"(\w+)"', open(os.path.join(root, "src/lir.h")).read()))
    c.need(len(out) > 300, "native bindings not found")
    return out


def used_as_value(p, g):
    if not _val:
        for f in p.unique():
            for i in f.insts():
                for k, x in enumerate(i.ops or []):
                    if isinstance(x, (list, tuple)) or isinstance(x, str):
                        e = None
                        try:
                            e = static_expr(f, x)
                        except Exception:
                            continue
                        if e and e[0] == "g":
                            _val.setdefault(e[1], True)
    return g.name in _val


main("R08", TECH, body)
