"""String order cases and key equality, shared by the string and the map rules."""
from util import *

SG = {-1: "<", 0: "=", 1: ">"}


class Case:
    """one abstract case: sign of the content comparison over the shorter length, and order of the lengths"""

    def __init__(s, m, l, A, B):
        s.m, s.l, s.A, s.B = m, l, A, B

    def num(s, e):
        """('n', value) | ('sign', s) | ('len', which) | None"""
        e = strip_casts(e)
        if e[0] == "c":
            return ("n", e[1])
        if e[0] == "call" and e[1] in ("memcmp", "__builtin_memcmp", "bcmp"):
            x, y = fldname(e[3]), fldname(e[4])
            if x == (s.A, "data") and y == (s.B, "data"):
                sg = s.m
            elif x == (s.B, "data") and y == (s.A, "data"):
                sg = -s.m
            else:
                return None
            if not s.size_ok(e[5]):
                return ("badsize", show(e[5]))
            if e[1] == "bcmp":
                return ("sign", sg) if sg == 0 else None
            return ("sign", sg)
        f = fldname(e)
        if f in ((s.A, "length"), (s.B, "length")):
            return ("len", f[0] == s.A)
        if e[0] == "sel":
            t = s.truth(e[1])
            return None if not isinstance(t, bool) else s.num(e[2] if t else e[3])
        if e[0] in ("cmp", "not"):
            t = s.truth(e)
            return ("n", int(t)) if isinstance(t, bool) else None if t is None else t
        t, c = linear(e)
        if c == 0 and len(t) == 2 and sorted(t.values()) == [-1, 1]:
            pos = next(k for k, v in t.items() if v == 1)
            neg = next(k for k, v in t.items() if v == -1)
            p, n = fldname(pos), fldname(neg)
            if p == (s.A, "length") and n == (s.B, "length"):
                return ("sign", s.l)
            if p == (s.B, "length") and n == (s.A, "length"):
                return ("sign", -s.l)
        if e[0] == "bin" and e[1] == "sub" or e[0] == "bin" and e[1] == "add":
            return None
        return None

    def size_ok(s, e):
        v = s.num(e)
        if v and v[0] == "len":
            return s.l == 0 or (v[1] == (s.l < 0))
        return False

    def truth(s, c):
        c = strip_casts(c)
        if c[0] == "c":
            return bool(c[1])
        if c[0] == "not":
            t = s.truth(c[1])
            return (not t) if isinstance(t, bool) else t
        if c[0] == "bin" and c[1] in ("and", "or", "xor"):
            x, y = s.truth(c[2]), s.truth(c[3])
            if isinstance(x, bool) and isinstance(y, bool):
                return {"and": x and y, "or": x or y, "xor": x != y}[c[1]]
            return None
        if c[0] != "cmp":
            v = s.num(c)
            if v is None or v[0] == "badsize":
                return v
            return v[1] != 0 if v[0] in ("n", "sign") else None
        x, y = s.num(c[2]), s.num(c[3])
        for v in (x, y):
            if v and v[0] == "badsize":
                return v
        # same object / same bytes: decides only towards equality
        fx, fy = fldname(c[2]), fldname(c[3])
        if {fx, fy} == {(s.A, "data"), (s.B, "data")} or {strip_casts(c[2]), strip_casts(c[3])} == {s.A, s.B}:
            same = {strip_casts(c[2]), strip_casts(c[3])} == {s.A, s.B}
            possible = s.m == 0 and (s.l == 0 or not same)
            return ("maybe", c[1] == "eq") if possible else (c[1] != "eq")
        if x is None or y is None:
            return None
        if x[0] == "len" and y[0] == "len":
            d = 0 if x[1] == y[1] else (s.l if x[1] else -s.l)
        elif x[0] == "sign" and y == ("n", 0):
            d = x[1]
        elif x == ("n", 0) and y[0] == "sign":
            d = -y[1]
        elif x[0] == "n" and y[0] == "n":
            d = (x[1] > y[1]) - (x[1] < y[1])
        elif x[0] == "sign" and y[0] == "n":
            # signs are only known as signs: x > -1 is x >= 0
            k, pr = y[1], c[1]
            if pr in ("sgt",) and k == -1:
                return x[1] >= 0
            if pr in ("slt",) and k == 1:
                return x[1] <= 0
            if pr in ("sge",) and k == 1:
                return x[1] > 0
            if pr in ("sle",) and k == -1:
                return x[1] < 0
            return None
        else:
            return None
        pr = c[1]
        return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}.get(pr if pr in ("eq", "ne") else pr[1:])


def key_equality(c, rule, p, W):
    """key_equal compares length and all bytes (strings) or the whole storage (others)"""
    f = p.need("key_equal")
    c.unit(f)
    R, A, B = ("a", 0), ("a", 1), ("a", 2)
    KS = p.enum("TYPE_STRING")
    for q in W().paths(f):
        if q.dead:
            continue
        tr = q.trace()
        isstr = None
        for e in q.ev:
            if e.k == "assume":
                cd, t = truth_of(e)
                if cd[0] == "cmp" and fldname(cd[2]) == (R, "kind") and const(cd[3]) == KS:
                    isstr = (cd[1] == "eq") == t
        if isstr is None:
            c.bad(rule, "key_equal|kind", q.end_loc(), "key_equal does not distinguish strings", tr)
            continue
        ret = q.ev[-1].val
        if isstr:
            for m in (-1, 0, 1):
                for l in (-1, 0, 1):
                    K = Case(m, l, A, B)
                    sts = [K.truth(e.cond) for e in q.ev if e.k == "assume" and fldname(truth_of(e)[0][2] if truth_of(e)[0][0] == "cmp" else ("c", 0)) != (R, "kind")]
                    trs = [bool(e.truth) for e in q.ev if e.k == "assume" and fldname(truth_of(e)[0][2] if truth_of(e)[0][0] == "cmp" else ("c", 0)) != (R, "kind")]
                    if any(isinstance(a, bool) and a != b for a, b in zip(sts, trs)):
                        continue
                    r = K.truth(ret)
                    bad = any(a is None or (isinstance(a, tuple) and a[0] == "badsize") for a in sts)
                    want = m == 0 and l == 0
                    c.check(rule, "key_equal string %s %s" % (SG[m], SG[l]), not bad and r == want, "key_equal|string", q.end_loc(),
                            "string keys with content %s and length %s compare %s" % (SG[m], SG[l], r), tr)
        else:
            m = [e for e in q.calls("memcmp", "bcmp")]
            ok = len(m) == 1 and {strip_casts(m[0].args[0]), strip_casts(m[0].args[1])} == {A, B} and fldname(m[0].args[2]) == (R, "storage_size")
            r = strip_casts(ret)
            ok = ok and (r == ("cmp", "eq", m[0].res, ("c", 0)) or (r[0] == "c" and Walker.decide(("cmp", "eq", m[0].res, ("c", 0)), q.facts) == bool(r[1])))
            c.check(rule, "key_equal storage", ok, "key_equal|storage", q.end_loc(), "keys that are not strings are not compared over their whole storage", tr)
