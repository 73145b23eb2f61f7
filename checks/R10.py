"""R10: mutual exclusion and wait primitives: every atomic step on the state word is an allowed transition."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
import queues

TECH = ("transition extraction: every compare-exchange and atomic update of the mutex state word is evaluated over a finite abstraction of the word "
        "(locked, woken, starving, number of waiters) on all paths and checked against the allowed transition relation; typestate of the waiter queue protocol (LLVM IR)")

STATE = ("rt_mutex_t", "state")
PRIM = {"rt_mutex_waiter_acquire", "rt_mutex_waiter_release", "atomic_add_int64", "can_semacquire", "rt_can_spin", "rt_do_spin"}
L, W, S, N = 1, 2, 4, 8
DOM = [f | n * N for n in (0, 1, 2, 3) for f in range(8)]
MASK = (1 << 64) - 1


def sgn(v, bits=64):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Unknown(Exception):
    pass


def ev(e, env):
    if e in env:
        return env[e]
    k = e[0]
    if k == "c":
        return e[1]
    if k == "cast":
        v = ev(e[2], env)
        m = re.match(r"i(\d+)$", str(e[3])) if len(e) > 3 else None
        if e[1] == "trunc" and m:
            return sgn(v, int(m.group(1))) if int(m.group(1)) > 1 else v & 1
        return v
    if k == "not":
        return int(not ev(e[1], env))
    if k == "bin":
        a, b = ev(e[2], env), ev(e[3], env)
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "shl": lambda: a << (b & 63), "ashr": lambda: a >> (b & 63), "lshr": lambda: (a & MASK) >> (b & 63)}.get(e[1])
        if f is None:
            raise Unknown(e[1])
        return sgn(f())
    if k == "cmp":
        a, b = ev(e[2], env), ev(e[3], env)
        ua, ub = a & MASK, b & MASK
        f = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}
        if e[1] not in f:
            raise Unknown(e[1])
        return int(f[e[1]])
    if k == "sel":
        return ev(e[2] if ev(e[1], env) else e[3], env)
    raise Unknown(k)


def word(e):
    """the observation of the state word an expression is computed from, with the step it was made by"""
    out = []
    for x in subexprs(e):
        if x[0] == "ld" and key_of(x) == STATE:
            out.append(x)
        elif x[0] == "call" and x[1] == "atomic_add_int64" and addr_key(x[3]) == STATE:
            out.append(x)
        elif x[0] in ("rmw", "cas") and addr_key(x[1]) == STATE:
            out.append(x)
    return list(dict.fromkeys(out))


def value(t, v):
    """what the observation yields when the word held v before it"""
    if t[0] == "call":
        return sgn(v + (const(t[4]) or 0))
    return v


def admitted(q, t, dom=DOM):
    """values of the word for which every condition of the path on this observation holds"""
    out = []
    for v in dom:
        env = {t: value(t, v)}
        ok = True
        for e in q.ev:
            if e.k != "assume" or t not in subexprs(e.cond):
                continue
            try:
                if bool(ev(e.cond, env)) != bool(e.truth):
                    ok = False
                    break
            except Unknown:
                pass
        if ok:
            out.append(v)
    return out


class Step:
    def __init__(s, kind, e, i, exp=None, new=None, delta=None):
        s.kind, s.e, s.i, s.exp, s.new, s.delta = kind, e, i, exp, new, delta


def steps(q):
    out = []
    for i, e in enumerate(q.ev):
        if e.k == "cas" and addr_key(e.addr) == STATE:
            ok = cas_success(q, e)
            if ok is False:
                continue
            out.append(Step("cas" if ok else "blind", e, i, exp=strip_casts(e.args[0]), new=e.args[1]))
        elif e.k == "rmw" and addr_key(e.addr) == STATE:
            d = e.args[0]
            if e.name == "sub":
                d = ("bin", "sub", ("c", 0), d)
            out.append(Step("add" if e.name in ("add", "sub") else "blind", e, i, delta=d))
        elif e.k == "call" and e.name == "atomic_add_int64" and addr_key(e.args[0]) == STATE:
            out.append(Step("add", e, i, delta=e.args[1]))
        elif e.k == "store" and addr_key(e.addr) == STATE:
            out.append(Step("plain", e, i))
        elif e.k == "call" and e.name == "rt_mutex_waiter_acquire":
            out.append(Step("block", e, i))
        elif e.k == "call" and e.name == "rt_mutex_waiter_release":
            out.append(Step("wake", e, i))
    return out


def body(c):
    c.rule("lock", "lock returns only after one atomic step that sets the locked bit from an unlocked, non-starving word, or after a hand-over in starving mode", 10)
    c.rule("wait", "a waiter is counted exactly when it blocks, the woken mark is owned by exactly one waiter and dropped on its next step", 20)
    c.rule("trylock", "try-lock never blocks, and answers true exactly when its own step took the lock", 3)
    c.rule("unlock", "unlock clears the locked bit once, reports misuse, and wakes one waiter unless nobody waits or somebody else is responsible", 4)
    c.rule("sema", "the semaphore is taken only when positive, by one atomic decrement", 2)
    c.rule("atomic", "the atomic addition publishes and returns exactly old + delta", 1)
    c.rule("sleep", "a waiter goes to sleep only registered, under the queue lock, after re-testing the semaphore, and leaves only with a permit", 4)
    c.rule("wakeup", "a release adds the permit before looking for waiters and makes the one it removed runnable on its own processor", 4)
    c.rule("thread", "the thread mutex wrappers operate on the given lock and report its result", 5)
    c.rule("queue", "appending, prepending, taking and removing leave exactly the expected waiters in the expected order", 8)
    c.rule("binding", "the language's mutex methods are bound to the matching native operation", 3)
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    for s in (lock, trylock, unlock, sema, atomic_add, sleep, wakeup, thread):
        c.section(s, c, p)
    c.section(queues.linkco, c, "queue", p)
    c.section(binding, c)


def walk(p, f, loops, inline=None):
    inl = inline or (lambda g: g.file.startswith("runtime/rt_mutex") and g.name not in PRIM)
    return [q for q in Walker(p, vn=False, blocks=True, inline=inl, loops=loops).paths(f) if not q.dead]


def flags(v):
    return "%s%s%s waiters=%d" % ("L" if v & L else "-", "W" if v & W else "-", "S" if v & S else "-", v >> 3)


def lock(c, p):
    f = p.need("rt_mutex_lock")
    c.unit(f.name)
    seen = set()
    for q in walk(p, f, 1):
        tr = q.trace()
        own = False          # this coroutine is the one marked woken
        got = None           # index of the acquiring step
        st = steps(q)
        terms = {}
        feasible = True
        for t in {t for e in q.ev if e.k == "assume" for t in word(e.cond)}:
            terms[t] = admitted(q, t)
            if not terms[t]:
                feasible = False
        if not feasible:
            continue
        for n, s in enumerate(st):
            loc = s.e.loc
            if s.kind in ("plain", "blind"):
                c.check("lock", f.name, False, "update", loc, "the state word is changed without knowing its previous value", tr)
                break
            if got is not None:
                c.check("lock", f.name, False, "after", loc, "after taking the lock the state is changed or the coroutine blocks again", tr)
                break
            if s.kind == "wake":
                c.check("lock", f.name, False, "wake", loc, "lock wakes a waiter", tr)
                break
            if s.kind == "block":
                prev = st[n - 1] if n else None
                c.check("wait", f.name, prev is not None and prev.kind == "cas" and prev.role == "wait", "block", loc, "the coroutine blocks without having been counted as waiter", tr)
                seen.add("block")
                own = "ask"
                continue
            if own == "ask":
                # woken up: what it saw decides between competing and taking over
                obs = [t for e in q.ev[st[n - 1].i:s.i + 1] for t in word(e.cond if e.k == "assume" else ("c", 0)) if q_index(q, t) > st[n - 1].i]
                vs = terms.get(obs[0], DOM) if obs else DOM
                if s.kind == "add":
                    c.check("lock", f.name, bool(obs) and all(v & S for v in vs), "handover-mode", loc, "the lock is taken over although the word was not seen starving", tr)
                    for v in [v for v in vs if v & S and not v & L and v >> 3]:
                        try:
                            w = sgn(v + ev(s.delta, {obs[0]: v}))
                        except Unknown:
                            w = None
                        ok = w is not None and w & L and (w >> 3) == (v >> 3) - 1 and not (w & W) and (w & S == 0 or v >> 3 > 1)
                        c.check("lock", f.name, ok, "handover", loc, "taking over from %s leaves %s" % (flags(v), "an unknown word" if w is None else flags(w)), tr)
                    seen.add("handover")
                    got = n
                    continue
                c.check("wait", f.name, bool(obs) and all(not v & S for v in vs), "handover-missed", loc, "a waiter woken in starving mode competes instead of taking the lock over", tr)
                own = True
            if s.kind == "add":
                c.check("lock", f.name, False, "add", loc, "the state word is changed outside the hand-over", tr)
                break
            t = word(s.exp)
            if s.exp[0] == "c":
                pairs = [(s.exp[1], s.exp[1])]
                t = None
            else:
                if len(t) != 1 or strip_casts(s.exp) != t[0] and not (s.exp[0] == "ext" and s.exp[1] == t[0]):
                    c.check("lock", f.name, False, "expected", loc, "the expected value %s is not an observation of the word" % show(s.exp), tr)
                    break
                t = t[0]
                pairs = [(v, value(t, v)) for v in terms.get(t, DOM)]
            roles = set()
            for v0, v in pairs:
                env = {t: v, s.exp: v} if t else {}
                try:
                    w = ev(s.new, env)
                except Unknown:
                    c.check("lock", f.name, False, "new", loc, "the new value %s is not computed from the observed word" % show(s.new), tr)
                    break
                if own is True and not v & W:
                    continue            # excluded: the mark was set for this coroutine
                dn = (w >> 3) - (v >> 3)
                what = "%s -> %s" % (flags(v), flags(w))
                if own is not True and v & L and not v & W and w == v | W and v >> 3:
                    roles.add("mark")
                    continue
                c.check("wait", f.name, not (w & W) if own is True else (w & W) == (v & W), "woken", loc, "the woken mark %s: %s" % ("is kept by its owner" if own is True else "is changed by a coroutine that does not own it", what), tr)
                c.check("lock", f.name, bool(w & L) or not v & L, "release", loc, "a coroutine taking the lock clears it: %s" % what, tr)
                c.check("wait", f.name, not v & S or w & S, "starving-lost", loc, "starving mode ends outside a hand-over: %s" % what, tr)
                c.check("wait", f.name, v & S or not w & S or (v & L and dn == 1), "starving-set", loc, "starving mode is entered on a free lock: %s" % what, tr)
                if not v & (L | S):
                    c.check("lock", f.name, w & L and dn == 0, "take", loc, "the free lock is not simply taken: %s" % what, tr)
                    roles.add("take")
                else:
                    c.check("lock", f.name, dn == 1 and (w & L) == (v & L), "queue", loc, "a held lock is touched other than by queueing up: %s" % what, tr)
                    roles.add("wait")
            if not pairs or not roles:
                s.role = "none"
                feasible = False
                break
            s.role = roles.pop() if len(roles) == 1 else "mixed"
            if s.role == "mark":
                own = True
                seen.add("mark")
            else:
                own = False
            if s.role == "take":
                got = n
                seen.add("take")
            if s.role == "wait":
                nx = st[n + 1] if n + 1 < len(st) else None
                c.check("wait", f.name, nx is not None and nx.kind == "block", "counted", loc, "a coroutine is counted as waiter but does not block", tr)
            if s.role == "mixed":
                c.check("lock", f.name, False, "mixed", loc, "one outcome of the step is treated as both taking the lock and waiting", tr)
                break
        else:
            if feasible:
                c.check("lock", f.name, got is not None and got == len(st) - 1, "return", q.end_loc(), "lock returns without having taken the lock", tr)
    c.need(seen >= {"block", "handover", "take"}, "lock paths: %s" % sorted(seen))


def q_index(q, t):
    """event position of an observation"""
    for i, e in enumerate(q.ev):
        if e.res == t:
            return i
    return -1


def trylock(c, p):
    f = p.need("rt_mutex_try_lock")
    c.unit(f.name)
    blocking = {"rt_mutex_waiter_acquire", "pthread_mutex_lock", "co_yield_waiting", "co_yield_runnable", "usleep", "sched_yield", "rt_mutex_lock", "pthread_cond_wait"}
    c.check("trylock", f.name, not Reach(p, blocking)(f), "blocks", f.loc, "try-lock can reach a blocking operation", [])
    n = 0
    for q in walk(p, f, 1):
        st = steps(q)
        tr = q.trace()
        r = q.ev[-1].val
        rv = const(r)
        vs = {t: admitted(q, t) for e in q.ev if e.k == "assume" for t in word(e.cond)}
        if any(not v for v in vs.values()):
            continue
        n += 1
        if rv is None:
            # the answer is the success bit itself
            x = strip_casts(r)
            cs = [e for e in q.ev if e.k == "cas" and addr_key(e.addr) == STATE]
            ok = len(cs) == 1 and x[0] == "ext" and x[1] == cs[0].res
            if not c.check("trylock", f.name, ok, "answer", q.end_loc(), "try-lock answers %s" % show(r), tr):
                continue
            st = [Step("cas", cs[0], q.index(cs[0]), exp=strip_casts(cs[0].args[0]), new=cs[0].args[1])]
            rv = 1
        if rv:
            ok = len(st) == 1 and st[0].kind == "cas"
            if not c.check("trylock", f.name, ok, "true", q.end_loc(), "try-lock answers true after %d steps on the state" % len(st), tr):
                continue
            t = word(st[0].exp)
            ok = len(t) <= 1
            for v in (vs.get(t[0], DOM) if t else [const(st[0].exp)]):
                try:
                    w = ev(st[0].new, {t[0]: v} if t else {})
                except Unknown:
                    w = None
                c.check("trylock", f.name, w is not None and not v & (L | S) and w == v | L, "take", st[0].e.loc, "try-lock takes the lock from %s" % flags(v), tr)
        else:
            c.check("trylock", f.name, not st, "false", q.end_loc(), "try-lock answers false after changing the state", tr)
            failed = any(e.k == "cas" and addr_key(e.addr) == STATE for e in q.ev)
            busy = any(all(v & (L | S) for v in vv) for vv in vs.values())
            c.check("trylock", f.name, failed or busy, "spurious", q.end_loc(), "try-lock answers false without having seen the lock held", tr)
    c.need(n >= 2, "no paths of try-lock")


def unlock(c, p):
    f = p.need("rt_mutex_unlock")
    c.unit(f.name)
    seen = set()
    for q in walk(p, f, 1):
        st = steps(q)
        tr = q.trace()
        rel = [s for s in st if s.kind in ("add", "cas", "plain", "blind")]
        if not c.check("unlock", f.name, bool(rel) and st[0] is rel[0] and rel[0].kind in ("add", "cas"), "release", q.end_loc(), "unlock does not start by clearing the locked bit atomically", tr):
            continue
        s0 = rel[0]
        if s0.kind == "add":
            ok = const(s0.delta) == -L
            try:
                ok = ok or ev(s0.delta, {}) == -L
            except Unknown:
                pass
            c.check("unlock", f.name, ok, "delta", s0.e.loc, "unlock changes the word by %s" % show(s0.delta), tr)
            t0 = s0.e.res
        else:
            t0 = (word(s0.exp) or [None])[0]
        dom = DOM + [4 * N]
        vs = admitted(q, t0, dom) if t0 else DOM
        if not vs:
            continue
        if s0.kind == "cas":
            for v in vs:
                c.check("unlock", f.name, ev(s0.new, {t0: v}) == v - L, "delta", s0.e.loc, "unlock stores %s" % show(s0.new), tr)
        c.check("unlock", f.name, all(v & L and v >= 0 for v in vs), "misuse", q.end_loc(), "unlocking a mutex that is not locked (%s) goes unnoticed" % [flags(v) for v in vs if not v & L], tr)
        vs = [v for v in vs if v & L]
        rest = st[1:]
        wakes = [s for s in rest if s.kind == "wake"]
        cass = [s for s in rest if s.kind == "cas"]
        bad = [s for s in rest if s.kind not in ("wake", "cas")]
        if not c.check("unlock", f.name, not bad, "steps", q.end_loc(), "unlock changes the state word again or blocks", tr):
            continue
        if vs and all(v & S for v in vs):
            seen.add("handover")
            c.check("unlock", f.name, len(wakes) == 1 and not cass, "handover", q.end_loc(), "in starving mode unlock wakes %d waiters" % len(wakes), tr)
            continue
        c.check("unlock", f.name, not any(v & S for v in vs), "mode", q.end_loc(), "unlock does not distinguish starving mode", tr)
        if wakes:
            seen.add("wake")
            ok = len(wakes) == 1 and len(cass) == 1 and cass[0].i < wakes[0].i
            if not c.check("unlock", f.name, ok, "wake", q.end_loc(), "a waiter is woken %d times with %d reservations" % (len(wakes), len(cass)), tr):
                continue
            t = word(cass[0].exp)
            if not c.check("unlock", f.name, len(t) == 1, "expected", cass[0].e.loc, "the expected value is no observation of the word", tr):
                continue
            for v0 in admitted(q, t[0]):
                v = value(t[0], v0)
                if v < 0:
                    continue
                try:
                    w = ev(cass[0].new, {t[0]: v})
                except Unknown:
                    w = None
                ok = w is not None and v >> 3 > 0 and not v & 7 and w == (v - N) | W
                c.check("unlock", f.name, ok, "reserve", cass[0].e.loc, "waking a waiter changes %s to %s" % (flags(v), None if w is None else flags(w)), tr)
        else:
            seen.add("none")
            c.check("unlock", f.name, not cass, "reserved", q.end_loc(), "a waiter is reserved but not woken", tr)
            obs = [t for e in q.ev if e.k == "assume" for t in word(e.cond)]
            last = max(obs, key=lambda t: q_index(q, t)) if obs else None
            if not c.check("unlock", f.name, last is not None, "look", q.end_loc(), "unlock returns without looking for waiters", tr):
                continue
            for v0 in admitted(q, last):
                v = value(last, v0)
                c.check("unlock", f.name, v >> 3 == 0 or v & 7, "lost", q.end_loc(), "unlock leaves %s without waking anybody" % flags(v), tr)
    c.need(seen >= {"handover", "wake", "none"}, "unlock paths: %s" % sorted(seen))


def sema(c, p):
    f = p.need("can_semacquire")
    c.unit(f.name)
    n = 0
    for q in walk(p, f, 1, inline=lambda g: False):
        n += 1
        tr = q.trace()
        won = [e for e in q.ev if e.k == "cas" and cas_success(q, e)]
        r = const(q.ev[-1].val)
        if not c.check("sema", f.name, r is not None, "answer", q.end_loc(), "the answer is %s" % show(q.ev[-1].val), tr):
            continue
        if r:
            ok = len(won) == 1 and strip_casts(won[0].addr) == ("a", 0)
            if c.check("sema", f.name, ok, "take", q.end_loc(), "a permit is reported after %d successful steps" % len(won), tr):
                x = strip_casts(won[0].args[0])
                d = unfold(won[0].args[1], x)
                c.check("sema", f.name, d == -1, "count", won[0].loc, "taking a permit changes the count by %s" % d, tr)
                zero = [b for b in known(q) if strip_casts(b[1]) == x and (b[0] == "ne" and const(b[2]) == 0 or b[0] == "sgt" and const(b[2]) in (0,) or b[0] == "sge" and const(b[2]) == 1)]
                c.check("sema", f.name, bool(zero), "positive", won[0].loc, "a permit is taken without knowing that there is one", tr)
        else:
            c.check("sema", f.name, not won, "lost", q.end_loc(), "a permit is taken but reported as not taken", tr)
            zero = [b for b in known(q) if b[0] in ("eq", "sle", "slt") and (const(b[2]) == 0 or b[0] == "slt" and const(b[2]) == 1)]
            c.check("sema", f.name, bool(zero), "spurious", q.end_loc(), "no permit is reported without having seen the count at zero", tr)
    c.need(n >= 2, "no paths of can_semacquire")


def unfold(new, x):
    t, k = linear(("bin", "sub", new, x))
    return k if not any(t.values()) else None


def atomic_add(c, p):
    f = p.need("atomic_add_int64")
    c.unit(f.name)
    for q in walk(p, f, 1, inline=lambda g: False):
        tr = q.trace()
        won = [e for e in q.ev if e.k == "cas" and cas_success(q, e)]
        rm = [e for e in q.ev if e.k == "rmw"]
        r = q.ev[-1].val
        if won:
            x = strip_casts(won[0].args[0])
            t, k = linear(("bin", "sub", won[0].args[1], x))
            ok = len(won) == 1 and not rm and k == 0 and {a: b for a, b in t.items() if b} == {("a", 1): 1} and strip_casts(won[0].addr) == ("a", 0)
            t2, k2 = linear(("bin", "sub", r, won[0].args[1]))
            ok2 = not any(t2.values()) and k2 == 0
        else:
            ok = len(rm) == 1 and rm[0].name == "add" and strip_casts(rm[0].args[0]) == ("a", 1) and strip_casts(rm[0].addr) == ("a", 0)
            ok2 = False
            if ok:
                t, k = linear(("bin", "sub", r, rm[0].res))
                ok2 = k == 0 and {a: b for a, b in t.items() if b} == {("a", 1): 1}
        c.check("atomic", f.name, ok, "add", q.end_loc(), "the addition does not publish old + delta in one step", tr)
        c.check("atomic", f.name, ok2, "result", q.end_loc(), "the addition returns %s" % show(r), tr)


def count_delta(e):
    """change of waiter_count made by an event"""
    if e.k == "call" and e.name == "atomic_add_int64" and addr_key(e.args[0]) == ("rt_mutex_t", "waiter_count"):
        return const(e.args[1])
    if e.k == "rmw" and addr_key(e.addr) == ("rt_mutex_t", "waiter_count"):
        return (const(e.args[0]) or 0) * (-1 if e.name == "sub" else 1)
    return None


def sem_take(q, e):
    """True/False: outcome of a semaphore attempt"""
    if not (e.k == "call" and e.name == "can_semacquire"):
        return None
    for x in q.ev:
        if x.k == "assume":
            cnd, t = truth_of(x)
            cc = strip_casts(cnd)
            if cc[0] == "cmp" and const(cc[3]) == 0:
                t = (cc[1] == "ne") == t
                cc = strip_casts(cc[2])
            if cc == e.res:
                return t
    return None


def qlock(e):
    a = e.args[0] if e.args else None
    return a is not None and addr_key(a) is not None and any(x[0] == "fld" and x[3] == "locker" for x in subexprs(a))


def sleep(c, p):
    f = p.need("rt_mutex_waiter_acquire")
    c.unit(f.name)
    commit = set()
    seen = set()
    for q in walk(p, f, 1):
        tr = q.trace()
        held, cnt, tested, queued, ticket, permit = 0, 0, False, 0, None, False
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "pthread_mutex_lock" and qlock(e):
                held += 1
                tested = False
            elif e.k == "call" and e.name == "pthread_mutex_unlock" and qlock(e):
                c.check("sleep", f.name, held == 1, "unlock", e.loc, "the queue lock is released without being held", tr)
                held -= 1
            elif count_delta(e) is not None:
                c.check("sleep", f.name, held == 1, "count-lock", e.loc, "the waiter count is changed outside the queue lock", tr)
                cnt += count_delta(e)
                tested = False
            elif e.k == "call" and e.name == "can_semacquire":
                t = sem_take(q, e)
                ok = addr_key(e.args[0]) == ("rt_mutex_t", "sema")
                c.check("sleep", f.name, ok and t is not None, "sema", e.loc, "the result of a semaphore attempt is ignored", tr)
                if t:
                    permit = True
                elif held and cnt == 1:
                    tested = True
            elif e.k == "store" and addr_key(e.addr) == ("coroutine_t", "ticket"):
                ticket = const(e.val)
            elif e.k == "call" and e.name in ("linkco_list_push", "linkco_list_push_head"):
                queued += 1
                seen.add("queue")
                c.check("sleep", f.name, held == 1 and cnt == 1 and tested, "queue", e.loc,
                        "a waiter is queued %s" % ("without holding the queue lock" if held != 1 else "without being counted" if cnt != 1 else "without re-testing the semaphore after being counted"), tr)
                c.check("sleep", f.name, ticket == 0, "ticket", e.loc, "a waiter is queued with a ticket left from before", tr)
                co = strip_casts(e.args[1])
                c.check("sleep", f.name, co[0] == "call" and co[1] == "coroutine_get", "who", e.loc, "the queued coroutine is %s" % show(co), tr)
                c.check("sleep", f.name, not permit, "with-permit", e.loc, "a waiter holding a permit is queued", tr)
            elif e.k == "call" and e.name.startswith("co_yield"):
                ok = e.name == "co_yield_waiting" and queued == 1 and held == 1 and len(e.args) == 3 and any(x[0] == "fld" and x[3] == "locker" for x in subexprs(e.args[2]))
                c.check("sleep", f.name, ok, "yield", e.loc, "the coroutine gives up its processor %s" % ("without being queued" if not queued else "with the wrong lock state"), tr)
                fn = fnname(e.args[1]) if len(e.args) > 1 else None
                if fn:
                    commit.add(fn)
                queued, held, cnt, tested = 0, 0, 0, False
                seen.add("yield")
            elif e.k == "assume" and any(key_of(x) == ("coroutine_t", "ticket") for x in subexprs(e.cond) if x[0] == "ld"):
                cc, t = truth_of(e)
                if cc[0] == "cmp" and const(cc[3]) == 0:
                    t = (cc[1] == "ne") == t
                permit = permit or bool(t)
        c.check("sleep", f.name, permit, "permit", q.end_loc(), "a waiter returns without a permit", tr)
        c.check("sleep", f.name, held == 0 and cnt == 0 and queued == 0, "balanced", q.end_loc(),
                "on return the queue lock is held" if held else "on return the waiter count is off by %d" % cnt, tr)
    c.need(seen == {"queue", "yield"} and commit, "waiter_acquire: %s" % sorted(seen))
    for n in commit:
        g = p.need(n)
        c.unit(n)
        for q in walk(p, g, 0):
            un = [e for e in q.ev if e.k == "call" and e.name == "pthread_mutex_unlock" and strip_casts(e.args[0]) == ("a", 1)]
            c.check("sleep", n, len(un) == 1 and const(q.ev[-1].val) not in (0, None), "commit", q.end_loc(), "committing the wait does not release the queue lock exactly once", q.trace())


def wakeup(c, p):
    f = p.need("rt_mutex_waiter_release")
    c.unit(f.name)
    seen = set()
    for q in walk(p, f, 0):
        tr = q.trace()
        add = [i for i, e in enumerate(q.ev) if (e.k == "call" and e.name == "atomic_add_int64" and addr_key(e.args[0]) == ("rt_mutex_t", "sema") and const(e.args[1]) == 1)
               or (e.k == "rmw" and e.name == "add" and addr_key(e.addr) == ("rt_mutex_t", "sema") and const(e.args[0]) == 1)]
        c.check("wakeup", f.name, len(add) == 1, "permit", q.end_loc(), "a release adds %d permits" % len(add), tr)
        if len(add) != 1:
            continue
        held, popped, pushed, cnt, looked, took = 0, None, 0, 0, None, False
        status = False
        for i, e in enumerate(q.ev):
            if e.k == "assume" and any(x[0] == "ld" and key_of(x) == ("rt_mutex_t", "waiter_count") for x in subexprs(e.cond)):
                looked = (i, held)
                c.check("wakeup", f.name, i > add[0], "order", e.loc, "waiters are looked for before the permit is published", tr)
            elif e.k == "assume" and any(x[0] == "ld" and key_of(x) == ("rt_linkco_list_t", "count") for x in subexprs(e.cond)):
                c.check("wakeup", f.name, held == 1, "queue-lock", e.loc, "a decision is based on the waiter queue outside its lock", tr)
            elif e.k == "call" and e.name == "pthread_mutex_lock" and qlock(e):
                held += 1
            elif e.k == "call" and e.name == "pthread_mutex_unlock" and qlock(e):
                held -= 1
                c.check("wakeup", f.name, held == 0 and (popped is None) == (cnt == 0), "consistent", e.loc, "the waiter count and the queue disagree when the queue lock is released", tr)
            elif count_delta(e) is not None:
                c.check("wakeup", f.name, held == 1, "count-lock", e.loc, "the waiter count is changed outside the queue lock", tr)
                cnt += count_delta(e)
            elif e.k == "call" and e.name == "linkco_list_pop":
                c.check("wakeup", f.name, held == 1 and popped is None and looked is not None and looked[1] == 1, "pop", e.loc,
                        "a waiter is removed %s" % ("without holding the queue lock" if not held else "twice" if popped else "without re-testing the count under the lock"), tr)
                popped = e.res
            elif e.k == "call" and e.name == "can_semacquire":
                took = bool(sem_take(q, e))
            elif e.k == "store" and addr_key(e.addr) == ("coroutine_t", "ticket"):
                ok = took and popped is not None and mentions(e.addr, popped) and const(e.val) not in (0, None)
                c.check("wakeup", f.name, ok and not pushed, "ticket", e.loc, "a ticket is given without having taken a permit, or to the wrong coroutine", tr)
                took = False
            elif e.k == "call" and e.name == "co_set_status":
                status = status or popped is not None and strip_casts(e.args[1]) == popped and const(e.args[2]) == p.enum("CO_STATUS_RUNNABLE") and not pushed
            elif e.k == "call" and e.name in ("rt_linked_fixalloc_push", "rt_linked_fixalloc_push_heap", "rt_linked_fixalloc_push_head"):
                pushed += 1
                seen.add("push")
                ok = popped is not None and strip_casts(e.args[1]) == popped
                lst = strip_casts(e.args[0])
                home = lst[0] == "fld" and lst[3] == "runnable_list" and strip_casts(lst[1])[0] == "ld" and key_of(lst[1]) == ("coroutine_t", "p") and mentions(lst, popped)
                c.check("wakeup", f.name, ok and home and held == 0, "push", e.loc, "the woken coroutine is not put on its own processor's run queue", tr)
                c.check("wakeup", f.name, status, "status", e.loc, "the coroutine is queued before it is marked runnable", tr)
                c.check("wakeup", f.name, not took, "permit-lost", e.loc, "a permit was taken for the waiter but no ticket is given", tr)
        c.check("wakeup", f.name, held == 0 and pushed == (popped is not None) and not took, "once", q.end_loc(),
                "the removed waiter is made runnable %d times" % pushed if held == 0 else "the queue lock is kept", tr)
        c.check("wakeup", f.name, cnt == (-1 if popped is not None else 0), "count", q.end_loc(), "the waiter count changes by %d" % cnt, tr)
        if popped is None:
            seen.add("none")
            z = [1 for b in known(q) if b[0] == "eq" and const(b[2]) == 0 and key_of(b[1]) == ("rt_mutex_t", "waiter_count")]
            c.check("wakeup", f.name, bool(z), "missed", q.end_loc(), "nobody is woken although waiters may exist", tr)
    c.need(seen == {"push", "none"}, "waiter_release: %s" % sorted(seen))


def thread(c, p):
    W = lambda f, lo=0: [q for q in Walker(p, vn=False, blocks=True, loops=lo, inline=lambda g: g.file.startswith("utils/mutex") and g.name not in ("mutex_trylock",)).paths(f) if not q.dead]
    lk = lambda e: key_of(e.args[0]) == ("mutex_t", "locker") and strip_casts(strip_casts(e.args[0])[1]) == ("a", 0)
    for n, prim in (("mutex_lock", "pthread_mutex_lock"), ("mutex_trylock", "pthread_mutex_trylock"), ("mutex_unlock", "pthread_mutex_unlock")):
        f = p.need(n)
        c.unit(n)
        for q in W(f):
            cs = [e for e in q.ev if e.k == "call" and e.name.startswith("pthread_mutex")]
            ok = len(cs) == 1 and cs[0].name == prim and lk(cs[0])
            if c.check("thread", n, ok, n, q.end_loc(), "%s performs %s" % (n, [e.name for e in cs]), q.trace()):
                r = strip_casts(q.ev[-1].val)
                same = r == cs[0].res or const(r) is not None and any(b[0] == "eq" and strip_casts(b[1]) == cs[0].res and const(b[2]) == const(r) for b in known(q))
                c.check("thread", n, same, n + ":result", q.end_loc(), "%s reports %s" % (n, show(r)), q.trace())
    f = p.need("mutex_times_trylock")
    c.unit(f.name)
    for q in W(f, 1):
        r = const(q.ev[-1].val)
        won = [e for e in q.ev if e.k == "call" and e.name == "mutex_trylock" and any(b[0] == "eq" and const(b[2]) == 0 and strip_casts(b[1]) == e.res for b in known(q))]
        ok = r is not None and (r == 0) == bool(won) and len(won) <= 1 and all(strip_casts(e.args[0]) == ("a", 0) for e in q.ev if e.k == "call" and e.name == "mutex_trylock")
        c.check("thread", f.name, ok, "times", q.end_loc(), "a bounded try reports %s after %d successful attempts" % (show(q.ev[-1].val), len(won)), q.trace())
    for n in ("mutex_new", "mutex_init"):
        f = p.need(n)
        c.unit(n)
        ri = len(f.argt) - 1
        for q in W(f):
            ini = [e for e in q.ev if e.k == "call" and e.name == "pthread_mutex_init"]
            ok = len(ini) == 1 and key_of(ini[0].args[0]) == ("mutex_t", "locker")
            if not c.check("thread", n, ok, n, q.end_loc(), "%s initialises %d locks" % (n, len(ini)), q.trace()):
                continue
            rec = [e for e in q.ev if e.k == "call" and e.name == "pthread_mutexattr_settype"]
            want = None
            for e in q.ev:
                if e.k == "assume":
                    cc, t = truth_of(e)
                    if cc[0] == "cmp" and const(cc[3]) == 0:
                        t, cc = (cc[1] == "ne") == t, cc[2]
                    if strip_casts(cc) == ("a", ri):
                        want = t
            isrec = bool(rec) and const(rec[0].args[1]) == 1 and strip_casts(rec[0].args[0]) == strip_casts(ini[0].args[1]) and q.index(rec[0]) < q.index(ini[0])
            plain = is_null(ini[0].args[1]) or not rec
            c.check("thread", n, want is not None and (isrec if want else plain), n + ":kind", q.end_loc(), "the lock is %srecursive although %srequested" % ("" if isrec else "not ", "" if want else "not "), q.trace())


def binding(c):
    import natdecl
    path = os.path.join(natdecl_repo(), "std/co/mutex.n")
    c.need(os.path.exists(path), "std/co/mutex.n not found")
    txt = re.sub(r"//[^\n]*", "", open(path).read())
    links = {}
    for m in re.finditer(r"#linkid\s+(\w+)\s*\n\s*(?:pub\s+)?fn\s+([\w.]+)\s*\(", txt):
        links[m.group(2)] = m.group(1)
    for meth, want in (("lock", "rt_mutex_lock"), ("try_lock", "rt_mutex_try_lock"), ("unlock", "rt_mutex_unlock")):
        m = re.search(r"fn\s+mutex_t\.%s\s*\(&self\)\s*(:\s*\w+)?\s*\{(.*?)\n\}" % meth, txt, re.S)
        loc = "std/co/mutex.n:%d" % (txt[:m.start()].count("\n") + 1 if m else 1)
        if not m:
            # bound directly
            d = links.get("mutex_t." + meth)
            c.need(d, "method %s of the mutex not found" % meth)
            c.check("binding", meth, d == want, meth, loc, "mutex_t.%s is bound to %s" % (meth, d), [])
            continue
        calls = [links.get(x, x) for x in re.findall(r"(\w+)\s*\(\s*self\s*\)", m.group(2))]
        ops = [x for x in calls if x.startswith("rt_mutex")]
        ok = ops == [want]
        if meth == "try_lock":
            ok = ok and "return" in m.group(2) and not re.search(r"!|\btrue\b|\bfalse\b", m.group(2))
        c.check("binding", meth, ok, meth, loc, "mutex_t.%s performs %s" % (meth, ops), [])
        c.unit("mutex_t." + meth)


def natdecl_repo():
    return os.environ.get("VERIF_REPO", "/repo")


if __name__ == "__main__":
    main("R10", TECH, body)
