"""Must-held locksets: locks are named by the member or global that holds them; requirements move to callers."""
from ir import *
from util import *

LOCK = {"pthread_mutex_lock", "mutex_lock", "pthread_spin_lock", "uv_mutex_lock", "pthread_rwlock_wrlock"}
UNLOCK = {"pthread_mutex_unlock", "mutex_unlock", "pthread_spin_unlock", "uv_mutex_unlock", "pthread_rwlock_unlock"}
TRY = {"pthread_mutex_trylock", "mutex_trylock"}


def place(e):
    """name of a memory place: Struct.member, or a global"""
    e = strip_all(e)
    while e[0] in ("idx",):
        e = strip_all(e[1])
    if e[0] == "fld":
        return "%s.%s" % (e[2], e[3])
    if e[0] == "g":
        return e[1]
    return None


def places(e):
    """the place and everything it is embedded in"""
    e = strip_all(e)
    out = []
    while e[0] in ("idx", "fld"):
        if e[0] == "fld":
            out.append("%s.%s" % (e[2], e[3]))
        e = strip_all(e[1])
    if e[0] == "g":
        out.append(e[1])
    return out


class Locks:
    """context-sensitive: every function is analysed once per set of locks its callers hold"""

    def __init__(s, p, access, skip=()):
        s.p, s.access, s.skip = p, access, set(skip)
        s.exit, s.seen, s.chain = {}, {}, []

    def lockarg(s, f, i):
        return place(static_expr(f, i.ops[0])) if i.ops else None

    def call(s, f, i, cur):
        """locks held after a call made with `cur`"""
        n = i.callee
        if not n:
            return cur
        if n in LOCK:
            l = s.lockarg(f, i)
            return cur | {l} if l else cur
        if n in UNLOCK:
            l = s.lockarg(f, i)
            return cur - {l} if l else cur
        if n in TRY:
            return cur
        g = s.p.resolve(f.tu, n)
        if g is None or not g.blocks or n in s.skip:
            return cur
        return s.run(g, cur)

    def run(s, f, entry):
        k = (f.tu, f.name, entry)
        if k in s.exit:
            return s.exit[k]
        s.exit[k] = entry
        s.chain.append(f.name)
        st, work = {0: entry}, [0]
        while work:
            b = work.pop()
            cur = st[b]
            for i in f.blocks[b]:
                if i.op == "call":
                    cur = s.call(f, i, cur)
            t = f.blocks[b][-1]
            for n in f.succ[b]:
                out = s.edge(f, t, n, cur)
                if n not in st:
                    st[n] = out
                    work.append(n)
                elif not st[n] <= out:
                    st[n] = st[n] & out
                    work.append(n)
        ex = None
        for b, cur in st.items():
            for i in f.blocks[b]:
                s.access(f, i, cur, list(s.chain))
                if i.op == "call":
                    cur = s.call(f, i, cur)
            if f.blocks[b][-1].op == "ret":
                ex = cur if ex is None else ex & cur
        s.chain.pop()
        ex = entry if ex is None else ex
        # a helper that locks (or unlocks) a whole set in a loop
        take, drop = s.sets(f)
        s.exit[k] = (ex | take) - drop
        return s.exit[k]

    def sets(s, f):
        take, drop = set(), set()
        for i in f.insts():
            if i.op == "call" and i.callee in LOCK | UNLOCK:
                l = s.lockarg(f, i)
                if l:
                    (take if i.callee in LOCK else drop).add((l, any(i.bb in f.reach(n) for n in f.succ[i.bb])))
        return ({l for l, loop in take if loop and not any(l == m for m, _ in drop)},
                {l for l, loop in drop if loop and not any(l == m for m, _ in take)})

    def edge(s, f, t, n, cur):
        if t.op == "br" and t.ops and len(t.x) == 2 and t.x[0] != t.x[1]:
            c = strip_all(static_expr(f, t.ops[0]))
            neg = False
            while c[0] == "not":
                c, neg = strip_all(c[1]), not neg
            if c[0] == "cmp" and c[1] in ("eq", "ne") and c[2][0] == "call" and c[2][1] in TRY and const(c[3]) == 0:
                ok = t.x[0] if (c[1] == "eq") != neg else t.x[1]
                l = place(c[2][3])
                if n == ok and l:
                    return cur | {l}
        return cur

    def roots(s):
        """functions entered from outside: without a caller, or whose address is taken"""
        called, taken = set(), set()
        for f in s.p.unique():
            for i in f.insts():
                for n, o in enumerate(i.ops or []):
                    if i.op == "phi":
                        o = o[1] if isinstance(o, (list, tuple)) else o
                    if isinstance(o, str) and o.startswith("@"):
                        taken.add(o[1:])
                if i.op == "call" and i.callee:
                    called.add(i.callee)
        for g in s.p.globals.values():
            st = [g.get("init")]
            while st:
                x = st.pop()
                if isinstance(x, str) and x.startswith("@"):
                    taken.add(x[1:])
                elif isinstance(x, list):
                    st += x
        return [f for f in s.p.unique() if f.blocks and (f.name not in called or f.name in taken)]
