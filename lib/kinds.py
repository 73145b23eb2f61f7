"""Which type kinds a path admits: tests of a `kind` field and calls of kind predicates narrow a finite set."""
from util import *


class Kinds:
    def __init__(s, prog):
        s.p = prog
        s.val = {}
        for e in prog.enums.values():
            if "TYPE_INT64" in e and "TYPE_UNION" in e:
                s.val = {k: v for k, v in e.items() if k.startswith("TYPE_")}
        if not s.val:
            raise AnalysisError("type kinds not found")
        s.all = frozenset(s.val.values())
        s.name = {v: k for k, v in s.val.items()}
        s.memo = {}
        s.cache = {}

    def pred(s, name):
        """kinds for which a one-argument predicate over a kind answers true, or None if it is no such predicate"""
        if name in s.memo:
            return s.memo[name]
        s.memo[name] = None
        g = next((f for f in s.p.unique() if f.name == name), None)
        if g is None or len(g.argt) != 1 or g.argt[0] == "ptr" or len(g.blocks) > 60:
            return None
        yes = set()
        try:
            for q in Walker(s.p, inline=lambda h: False, vn=True, blocks=True, max_paths=2000, pure={x.name for x in s.p.unique() if x.name.startswith("is_")}).paths(g):
                if q.dead:
                    continue
                ks = s.narrow(q).get(("a", 0), s.all)
                r = q.ev[-1].val
                t = s.truth(r, ("a", 0))
                if t is None:
                    return None
                yes |= ks & t
        except AnalysisError:
            return None
        s.memo[name] = frozenset(yes)
        return s.memo[name]

    def truth(s, e, subject):
        """kinds of `subject` for which e is true"""
        e = unversion(strip_all(e))
        if const(e) is not None:
            return s.all if const(e) else frozenset()
        for k, v in s.test(e):
            if k == subject:
                return v
        return None

    def test(s, x):
        """[(subject, kinds for which x holds)] of a condition"""
        x = unversion(strip_all(x))
        if x[0] == "cmp" and const(x[3]) is not None and x[1] in ("eq", "ne", "ult", "ugt", "ule", "uge", "slt", "sgt", "sle", "sge"):
            if const(x[3]) == 0 and x[1] in ("eq", "ne") and x[2][0] == "call" and len(x[2]) == 4:
                t = s.pred(x[2][1])
                if t is not None:
                    return [(unversion(strip_all(x[2][3])), t if x[1] == "ne" else s.all - t)]
            n = const(x[3])
            f = {"eq": lambda k: k == n, "ne": lambda k: k != n, "lt": lambda k: k < n, "gt": lambda k: k > n, "le": lambda k: k <= n, "ge": lambda k: k >= n}[x[1] if x[1] in ("eq", "ne") else x[1][1:]]
            return [(unversion(strip_all(x[2])), frozenset(k for k in s.all if f(k)))]
        if x[0] == "call" and len(x) == 4:
            t = s.pred(x[1])
            if t is not None:
                return [(unversion(strip_all(x[3])), t)]
        if x[0] == "not":
            return [(k, s.all - v) for k, v in s.test(x[1])]
        return []

    def split(s, cond, facts):
        """(fact key, kinds if true, kinds if false) of a condition over a kind, or None"""
        t = s.cache.get(cond)
        if t is None:
            t = s.test(cond)
            t = t[0] if t and key_of(t[0][0]) and key_of(t[0][0])[1] == "kind" else ()
            s.cache[cond] = t
        if not t:
            return None
        k = ("kinds", t[0])
        cur = facts.get(k, s.all)
        return k, cur & t[1], cur - t[1]

    def narrow(s, q, upto=None):
        """{subject expression: possible kinds} from the tests on the path"""
        out = {}
        for e in q.ev[:upto]:
            if e.k != "assume":
                continue
            if e.cond[0] == "cmp" and e.cond[1] == "in":
                k = unversion(strip_all(e.cond[2]))
                out[k] = out.get(k, s.all) - set(e.cond[3][1])
                continue
            for k, v in s.test(e.cond):
                if k[0] != "a" and (key_of(k) or (0, 0))[1] != "kind":
                    continue
                if not e.truth:
                    v = s.all - v
                out[k] = out.get(k, s.all) & v
        return out

    def feasible(s, q):
        return all(v for v in s.narrow(q).values())
