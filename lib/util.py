"""Helpers shared by the rules."""
from ir import *


def key_of(e):
    """(struct, field) of a field address or of a load from one"""
    e = strip_casts(e)
    if e[0] == "ld":
        e = strip_casts(e[1])
    while e[0] == "idx":
        e = strip_casts(e[1])
    if e[0] == "fld":
        return (e[2], e[3])
    return None


def addr_key(e):
    e = strip_casts(e)
    while e[0] == "idx":
        e = strip_casts(e[1])
    if e[0] == "fld":
        return (e[2], e[3])
    if e[0] == "g":
        return ("global", e[1])
    return None


def const(e):
    e = strip_casts(e)
    return e[1] if e[0] == "c" else None


def is_null(e):
    return const(e) == 0


def roots(e):
    """leaf values an expression is built from"""
    return [q for q in subexprs(e) if q[0] in ("a", "g", "al", "ld", "call", "phi", "s", "cas", "rmw")]


def mentions(e, x):
    return any(q == x for q in subexprs(e))


def neg_status(res, facts):
    """True: the path treats `res` as failure, False: as success, None: not decided on this path"""
    r = strip_casts(res)
    for cand in (res, r):
        f = facts.get(strip_casts(cand))
        if f and f[0] == "eq":
            return f[1] < 0 or (f[1] != 0 and None) if f[1] != 0 else False
    # comparisons recorded with the value (possibly under casts)
    verdict = None
    for c, v in facts.items():
        if not (isinstance(c, tuple) and c[0] == "cmp" and v[0] == "b"):
            continue
        if strip_casts(c[2]) != r or c[3][0] != "c":
            continue
        pred, k = c[1], c[3][1]
        if not v[1]:
            if pred not in NEG:
                continue
            pred = NEG[pred]
        if pred == "slt" and k <= 0 or pred == "sle" and k < 0:
            return True
        if pred == "sge" and k >= 0 or pred == "sgt" and k >= -1:
            verdict = False
        if pred == "ne" and k == 0 and verdict is None:
            verdict = True
        if pred == "eq" and k < 0:
            return True
        if pred == "eq" and k == 0:
            return False
    if verdict is None:
        f = facts.get(r)
        if f and f[0] == "ne" and 0 in f[1]:
            return True
    return verdict


def fnname(e):
    e = strip_casts(e)
    return e[1] if e[0] == "g" else None


class Reach:
    """transitive direct-call reachability of primitive names"""

    def __init__(s, prog, prims):
        s.p, s.prims = prog, set(prims)
        s.memo = {}

    def __call__(s, fn):
        k = (fn.tu, fn.name)
        if k in s.memo:
            return s.memo[k]
        seen, st, hit = set(), [fn], False
        while st and not hit:
            f = st.pop()
            kk = (f.tu, f.name)
            if kk in seen:
                continue
            seen.add(kk)
            if s.memo.get(kk):
                hit = True
                break
            for i in f.insts():
                if i.op == "call" and i.callee:
                    if i.callee in s.prims:
                        hit = True
                        break
                    c = s.p.resolve(f.tu, i.callee)
                    if c:
                        st.append(c)
                elif i.op == "call":
                    for n in table_targets(s.p, f, i):
                        if n in s.prims:
                            hit = True
                            break
                        c = s.p.resolve(f.tu, n)
                        if c:
                            st.append(c)
        s.memo[k] = hit
        return hit


def table_targets(prog, f, i):
    """functions an indirect call can reach when it goes through a constant table"""
    if not isinstance(i.x, str):
        return
    for x in subexprs(static_expr(f, i.x)):
        if x[0] == "g" and x[1] in prog.globals:
            st = [prog.globals[x[1]].get("init")]
            while st:
                y = st.pop()
                if isinstance(y, (list, tuple)):
                    st.extend(y)
                elif isinstance(y, str) and y.startswith("@"):
                    yield y[1:]


COPIES = ("llvm.memmove", "llvm.memcpy", "memmove", "memcpy", "__builtin_memmove", "__builtin_memcpy")


def is_copy(e):
    return e.k == "call" and isinstance(e.name, str) and e.name.startswith(COPIES)


def truth_of(e):
    """normalised (condition, truth) of an assume event"""
    c, t = e.cond, e.truth
    while c[0] == "not":
        c, t = c[1], not t
    return c, t


def cas_success(q, e):
    """True/False if the path learns whether this compare-exchange succeeded"""
    for x in q.ev:
        if x.k == "assume":
            c, t = truth_of(x)
            c = strip_casts(c)
            if c[0] == "cmp" and c[1] in ("eq", "ne") and const(c[3]) in (0, 1) and strip_casts(c[2])[0] == "ext":
                t = (c[1] == "eq") == t if const(c[3]) == 1 else (c[1] == "ne") == t
                c = strip_casts(c[2])
            if c[0] == "ext" and c[1] == e.res and c[2] in (1, "1", [1], (1,)):
                return t
    return None


FNEG = {"fo" + a: "fu" + b for a, b in (("gt", "le"), ("ge", "lt"), ("lt", "ge"), ("le", "gt"), ("eq", "ne"), ("ne", "eq"))}
FNEG.update({v: k for k, v in FNEG.items()})


def known(q, upto=None):
    """comparisons that hold on a path, as (pred, lhs, rhs, event)"""
    for e in q.ev if upto is None else q.ev[:upto]:
        if e.k != "assume":
            continue
        c, t = truth_of(e)
        if c[0] == "cmp":
            if t:
                yield c[1], c[2], c[3], e
            elif c[1] in NEG:
                yield NEG[c[1]], c[2], c[3], e
            elif c[1] in FNEG:
                yield FNEG[c[1]], c[2], c[3], e
        else:
            yield ("ne" if t else "eq"), c, ("c", 0), e


def fldname(e):
    """(base, field) if e is a load of a field"""
    e = strip_casts(e)
    if e[0] == "ld":
        a = strip_casts(e[1])
        if a[0] == "fld":
            return strip_casts(a[1]), a[3]
    return None


def fname(e):
    k = fldname(e)
    return k[1] if k else None


def null_after_use(q):
    """the path assumes a pointer null that it has already used to reach memory: it cannot be taken"""
    used = set()
    for e in q.ev:
        if e.k in ("load", "store") and e.addr is not None:
            a = strip_casts(e.addr)
            while a[0] in ("fld", "idx"):
                a = strip_casts(a[1])
            used.add(a)
            used |= deref(a)
        elif e.k == "call":
            for x in e.args or ():
                used |= deref(x)
        elif e.k == "assume":
            used |= deref(e.cond)
            c, t = e.cond, e.truth
            while c[0] == "not":
                c, t = c[1], not t
            if c[0] == "cmp" and c[1] in ("eq", "ne") and const(c[3]) == 0 and (c[1] == "eq") == bool(t):
                if strip_casts(c[2]) in used:
                    return True
    return False


def deref(e):
    out = set()
    for x in subexprs(e):
        if x[0] == "ld":
            a = strip_casts(x[1])
            while a[0] in ("fld", "idx"):
                a = strip_casts(a[1])
            if a[0] not in ("al", "g"):
                out.add(a)
    return out


def fold(e, args):
    """value of an expression given the constants some arguments have, or None"""
    e = strip_casts(e)
    if e[0] == "c":
        return e[1]
    if e[0] == "a":
        return args.get(e[1])
    if e[0] == "not":
        v = fold(e[1], args)
        return None if v is None else int(not v)
    if e[0] == "cmp":
        a, b = fold(e[2], args), fold(e[3], args)
        if a is None or b is None:
            return None
        f = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(e[1])
        return None if f is None else int(f)
    return None


class CReach:
    """call reachability of primitive names that follows branches decided by constant arguments"""

    def __init__(s, prog, prims):
        s.p, s.prims, s.memo = prog, set(prims), {}

    def __call__(s, fn, args=None):
        args = args or {}
        k = (fn.tu, fn.name, tuple(sorted(args.items())))
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = False
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            for i in fn.blocks[b]:
                if i.op == "call" and i.callee:
                    if i.callee in s.prims:
                        s.memo[k] = True
                        return True
                    c = s.p.resolve(fn.tu, i.callee)
                    if c:
                        ca = {}
                        for n, o in enumerate(i.ops or []):
                            try:
                                v = fold(static_expr(fn, o), args)
                            except Exception:
                                v = None
                            if v is not None:
                                ca[n] = v
                        if s(c, ca):
                            s.memo[k] = True
                            return True
            t = fn.blocks[b][-1]
            if t.op == "br" and len(t.x) == 2 and t.ops:
                v = fold(static_expr(fn, t.ops[0]), args)
                if v is not None:
                    st.append(t.x[0] if v else t.x[1])
                    continue
            st.extend(fn.succ[b])
        return False
