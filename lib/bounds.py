"""What the branches on the way to an instruction establish about the values it uses.

`Bounds.facts(fn, block)` collects the conditions of every branch edge that dominates a block, looking through boolean
temporaries and through helper functions whose result is tested.  `prove` decides a linear inequality from them by
substituting one fact at a time; values are unsigned, and a sum that could wrap is only used when the same branch
structure rules the wrap out."""
from util import *

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


def strip(e):
    """drop conversions that keep the value of an unsigned quantity"""
    if not isinstance(e, tuple):
        return e
    if e[0] == "cast":
        if e[1] == "trunc":
            return ("tr", e[3], strip(e[2]))
        if e[1] == "zext":
            x = strip(e[2])
            return x
        return strip(e[2])
    if e[0] == "ld":
        return ("ld", strip(e[1]), 0)
    if e[0] == "call":
        return ("call", e[1], 0) + tuple(strip(x) for x in e[3:])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in e)


def lin(e):
    """({atom: coefficient}, constant)"""
    if e[0] == "c":
        return {}, e[1]
    if e[0] == "bin" and e[1] in ("add", "sub"):
        a, ca = lin(e[2])
        b, cb = lin(e[3])
        sg = 1 if e[1] == "add" else -1
        if not b and cb >= 1 << 63:  # adding a negative constant
            cb -= 1 << 64
        r = dict(a)
        for t, k in b.items():
            r[t] = r.get(t, 0) + sg * k
            if not r[t]:
                del r[t]
        return r, ca + sg * cb
    if e[0] == "bin" and e[1] in ("mul", "shl"):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if y[0] == "c" and (e[1] == "mul" or y is e[3]):
                k = y[1] if e[1] == "mul" else 1 << y[1]
                a, ca = lin(x)
                return {t: v * k for t, v in a.items()}, ca * k
    if e[0] == "idx" and isinstance(e[3], int):
        a, ca = lin(e[1])
        b, cb = lin(e[2])
        if not b and cb >= 1 << 63:
            cb -= 1 << 64
        r = dict(a)
        for t, k in b.items():
            r[t] = r.get(t, 0) + k * e[3]
            if not r[t]:
                del r[t]
        return r, ca + cb * e[3]
    return {e: 1}, 0


def sub(a, b, k=1):
    r = dict(a[0])
    for t, v in b[0].items():
        r[t] = r.get(t, 0) - v * k
        if not r[t]:
            del r[t]
    return r, a[1] - b[1] * k


def subst(e, args):
    if not isinstance(e, tuple):
        return e
    if e[0] == "a":
        return args[e[1]] if e[1] < len(args) else ("unk",)
    return tuple(subst(x, args) if isinstance(x, tuple) else x for x in e)


def local(e):
    """mentions a value that only has meaning inside the function it was computed in"""
    return any(x[0] in ("al", "phi", "unk", "v") for x in subexprs(e) if isinstance(x, tuple) and x)


class SEv(Ev):
    """expressions of a function, each value computed once; a value too large to be useful becomes an atom"""
    __slots__ = ("names",)

    def __init__(s, fn):
        Ev.__init__(s, fn, [("a", i) for i in range(len(fn.argt))], 0)
        s.names = {}
        for i in fn.insts():
            if i.op == "gep" and len(i.x) == 1 and i.x[0][0] == "f" and i.x[0][1] != "{}":
                s.names[(i.ops[0], i.x[0][3])] = i.x[0]

    def op(s, o):
        if isinstance(o, str) and o[0] == "%" and o not in s.env:
            i = s.fn.byid.get(o)
            if i is not None and i.op == "gep" and len(i.x) == 1 and i.x[0][:2] == ["f", "{}"] and (i.ops[0], i.x[0][3]) in s.names:
                f = s.names[(i.ops[0], i.x[0][3])]
                s.env[o] = ("fld", s.op(i.ops[0]), f[1], f[2])
        if isinstance(o, str) and o[0] == "%" and o not in s.env:
            e = strip(Ev.op(s, o))
            n = nodes(e)
            if n > 150:
                e = ("v", 0, o)
            s.env[o] = e
            return e
        return Ev.op(s, o)


def contradicts(a, b):
    return a[0] == NEG[b[0]] and a[1:] == b[1:] or a[0] == "eq" == b[0] and a[1] == b[1] and a[2][0] == "c" == b[2][0] and a[2] != b[2]


def nodes(e):
    return 1 + sum(nodes(x) for x in e[1:] if isinstance(x, tuple)) if isinstance(e, tuple) else 1


class Bounds:
    def __init__(s, prog):
        s.p = prog
        s.cache, s.busy, s.fwd, s.evs, s.out, s.low = {}, set(), {}, {}, {}, {}

    # -- expressions
    def ex(s, fn, o):
        return s.forward(fn, s.sx(fn, o))

    def sx(s, fn, o):
        if fn not in s.evs:
            s.evs[fn] = SEv(fn)
        return s.evs[fn].op(o)

    def forward(s, fn, e):
        """values of locals that are stored exactly once"""
        if not isinstance(e, tuple):
            return e
        if e[0] == "ld":
            a = s.forward(fn, e[1])
            m = s.stored(fn)
            if a in m and m[a] is not None:
                return m[a]
            return ("ld", a, 0)
        return tuple(s.forward(fn, x) if isinstance(x, tuple) else x for x in e)

    def stored(s, fn):
        if fn not in s.fwd:
            m = {}
            s.fwd[fn] = {}
            esc = set()
            for i in fn.insts():
                if i.op == "store":
                    a = s.sx(fn, i.ops[1])
                    r = a
                    while r[0] in ("fld", "idx"):
                        r = r[1]
                    if r[0] == "al":
                        m[a] = None if a in m else s.sx(fn, i.ops[0])
                elif i.op == "call":
                    for o in i.ops:
                        if isinstance(o, (str, list)):
                            try:
                                a = s.sx(fn, o)
                            except Exception:
                                continue
                            while a[0] in ("fld", "idx"):
                                a = a[1]
                            if a[0] == "al":
                                esc.add(a)

            def root(a):
                while a[0] in ("fld", "idx"):
                    a = a[1]
                return a
            s.fwd[fn] = {a: (None if root(a) in esc else v) for a, v in m.items()}
        return s.fwd[fn]

    # -- facts: (pred, a, b) over unsigned values
    def edge(s, fn, d, b, depth=0):
        """what holds because control went from block d to block b"""
        ins = fn.blocks[d][-1]
        if ins.op != "br" or not ins.ops or len(ins.x) != 2 or ins.x[0] == ins.x[1]:
            return []
        return s.implied(fn, ins.ops[0], ins.x[0] == b, depth)

    def facts(s, fn, b, depth=0):
        k = (fn, b, depth > 0)
        if k in s.cache:
            return s.cache[k]
        if k in s.busy:
            return []
        s.busy.add(k)
        out = []
        dom = fn.dom.get(b, set())
        for x in sorted(dom):
            ps = [p for p in fn.pred[x] if p in fn.dom]
            fwd = [p for p in ps if x not in fn.dom[p]]
            if len(fwd) == 1 and fwd[0] in dom:
                out += s.edge(fn, fwd[0], x, depth)
        # a join some of whose predecessors contradict what is known later
        for x in sorted(dom):
            fwd = [p for p in fn.pred[x] if p in fn.dom and x not in fn.dom[p]]
            if 1 < len(fwd) <= 6 and out:
                inc = [s.facts(fn, p, depth) + s.edge(fn, p, x, depth) for p in fwd]
                live = [f for f in inc if not any(contradicts(a, g) for a in f for g in out)]
                if 0 < len(live) < len(inc):
                    out = out + [f for f in live[0] if all(f in o for o in live[1:]) and f not in out]
        if depth == 0:
            out = out + s.grows(fn)
        s.busy.discard(k)
        s.cache[k] = out
        return out

    def implied(s, fn, o, truth, depth=0):
        if depth > 5:
            return []
        i = fn.byid.get(o) if isinstance(o, (str, int)) else None
        if i is None:
            return []
        if i.op == "icmp":
            pr = i.x if truth else NEG[i.x]
            a, b = i.ops
            # comparison of a call's result with a constant
            kb = s.const(b)
            out = []
            if kb is not None and pr in ("eq", "ne"):
                out = s.result(fn, a, kb, pr == "eq", depth)
            return out + [(pr, s.ex(fn, a), s.ex(fn, b))]
        if i.op == "xor":
            return s.implied(fn, i.ops[0], not truth, depth) if s.const(i.ops[1]) in (1, -1) else []
        if i.op in ("trunc", "zext"):
            return s.implied(fn, i.ops[0], truth, depth)
        if i.op == "phi":
            return s.merge(fn, i, lambda v: s.const(v) is not None and bool(s.const(v)) != truth, lambda v: s.implied(fn, v, truth, depth + 1), depth)
        if i.op == "call":
            return s.called(fn, i, lambda g, r: s.implied(g, r, truth, depth + 1), lambda v: s.const(v) is not None and bool(s.const(v)) != truth, depth)
        return []

    def result(s, fn, o, k, eq, depth):
        """what holds when a value equals / differs from a constant"""
        i = fn.byid.get(o) if isinstance(o, (str, int)) else None
        if i is None or depth > 5:
            return []
        out = lambda v: s.const(v) is not None and (s.const(v) == k) != eq
        if i.op in ("zext", "trunc", "sext"):
            return s.result(fn, i.ops[0], k, eq, depth)
        if i.op == "icmp" or i.op == "xor":
            if k in (0, 1, -1):
                return s.implied(fn, o, (k != 0) == eq, depth)
            return []
        if i.op == "phi":
            return s.merge(fn, i, out, lambda v: s.result(fn, v, k, eq, depth + 1), depth)
        if i.op == "call":
            return s.called(fn, i, lambda g, r: s.result(g, r, k, eq, depth + 1), out, depth)
        return []

    def merge(s, fn, i, excluded, rec, depth):
        res = None
        for blk, v in i.ops:
            if blk not in fn.dom or excluded(v):
                continue
            if s.loops(fn, i, blk):
                return []
            f = rec(v) + s.edge(fn, blk, i.bb, depth + 1) + s.facts(fn, blk, depth + 1) + s.outs(fn, blk)
            res = f if res is None else [x for x in res if x in f]
        return res or []

    def loops(s, fn, i, blk):
        return i.bb in fn.dom[blk]

    def called(s, fn, i, rec, excluded, depth):
        if not isinstance(i.callee, str) or depth > 3:
            return []
        g = s.p.resolve(fn.tu, i.callee)
        if g is None or not g.blocks or g is fn:
            return []
        res = None
        for r in g.insts():
            if r.op == "ret" and r.ops and r.bb in g.dom:
                if excluded(r.ops[0]):
                    continue
                f = rec(g, r.ops[0]) + s.facts(g, r.bb, depth + 1) + s.outs(g, r.bb)
                res = f if res is None else [x for x in res if x in f]
        args = [s.ex(fn, o) for o in i.ops[:len(g.argt)]] if i.ops else []
        out = []
        for pr, a, b in res or []:
            if not local(a) and not local(b):
                out.append((pr, subst(a, args), subst(b, args)))
        return out

    def grows(s, fn):
        """values that start at a constant and are only ever added to"""
        if fn not in s.low:
            out = []
            for i in fn.insts():
                if i.op == "phi" and i.bb in fn.dom:
                    t, low = s.sx(fn, i.id), None
                    for blk, v in i.ops:
                        e = s.sx(fn, v)
                        if e[0] == "c" and e[1] >= 0:
                            low = e[1] if low is None else min(low, e[1])
                        elif e == t:
                            pass
                        elif not (lin(e)[0].get(t) == 1 and not list(differences(e)) and lin(e)[1] >= 0 and all(v > 0 for v in lin(e)[0].values())):
                            low = 0
                            break
                    if low:
                        out.append(("uge", t, ("c", low)))
            s.low[fn] = out
        return s.low[fn]

    def outs(s, fn, blk):
        """what a function has put where its pointer arguments point"""
        if fn not in s.out:
            m = {}
            for i in fn.insts():
                if i.op == "store" and i.bb in fn.dom:
                    m.setdefault(s.sx(fn, i.ops[1]), []).append(i)
            s.out[fn] = {a: l[0] for a, l in m.items() if len(l) == 1 and a[0] == "a"}
        return [("eq", ("ld", a, 0), s.ex(fn, i.ops[0])) for a, i in s.out[fn].items() if i.bb in fn.dom.get(blk, ())]

    @staticmethod
    def const(o):
        return o[1] if isinstance(o, list) and o and o[0] == "c" else None

    # -- entailment
    def ineqs(s, facts):
        """facts as forms that are <= 0"""
        out, later = [], []
        for pr, a, b in facts:
            if pr in ("eq", "ult", "ule", "slt", "sle"):
                l, r = a, b
            elif pr in ("ugt", "uge", "sgt", "sge"):
                l, r = b, a
            elif pr == "ne" and b == ("c", 0):
                l, r = b, a
                out.append(({t: -v for t, v in lin(a)[0].items()}, 1 - lin(a)[1]))
                continue
            else:
                continue
            if r[0] == "c" and r[1] < 0 and pr[0] == "u" or l[0] == "c" and l[1] < 0:
                continue
            strict = 1 if pr in ("ult", "ugt", "slt", "sgt") else 0
            if wraps(l, facts) or wraps(r, facts, small=True):
                continue
            f = sub(lin(l), lin(r))
            (later if list(differences(r)) else out).append(((f[0], f[1] + strict), r))
            if pr == "eq":
                (later if list(differences(l)) else out).append((sub(lin(r), lin(l)), l))
        out = [f if len(f) == 2 and isinstance(f[0], dict) else f[0] for f in out]
        # a difference bounds something only where it does not wrap
        while True:
            ok = [x for x in later if all(search(sub(lin(y), lin(x)), out, 3) for x, y in differences(x[1]))]
            if not ok:
                return out
            out += [f for f, r in ok]
            later = [x for x in later if x not in ok]

    def prove(s, goal, facts, depth=5):
        """goal <= 0 follows from the facts"""
        fs = s.ineqs(facts)
        atoms = {t for f in fs for t in f[0]} | set(goal[0])
        for t in list(atoms):
            if t[0] == "bin" and t[1] == "udiv" and t[3][0] == "c" and t[3][1] > 0:
                f = sub(({t: t[3][1]}, 0), lin(t[2]))
                fs.append(f)
            if t[0] == "bin" and t[1] == "lshr" and t[3][0] == "c":
                fs.append(sub(({t: 1 << t[3][1]}, 0), lin(t[2])))
            if t[0] == "bin" and t[1] == "and" and t[3][0] == "c":
                fs.append(({t: 1}, -t[3][1]))
            if t[0] == "bin" and t[1] == "urem" and t[3][0] == "c":
                fs.append(({t: 1}, -(t[3][1] - 1)))
        return search(goal, fs, depth)


def search(goal, fs, depth):
        seen = set()

        def go(g, d):
            if g[1] <= 0 and all(v <= 0 for v in g[0].values()):
                return True
            if d == 0:
                return False
            k = (frozenset(g[0].items()), g[1])
            if k in seen:
                return False
            seen.add(k)
            for f in fs:
                for t, v in g[0].items():
                    if v > 0 and f[0].get(t, 0) > 0 and v % f[0][t] == 0:
                        if go(sub(g, f, v // f[0][t]), d - 1):
                            return True
            if not any(v > 0 for v in g[0].values()) and g[1] > 0:
                # a strict lower bound of a subtracted value
                for f in fs:
                    if all(v < 0 for v in f[0].values()) and set(f[0]) <= set(g[0]) and f[1] > 0 and f[0]:
                        if go(sub(g, f), d - 1):
                            return True
            return False
        return go(goal, depth)


def wraps(e, facts, small=False):
    """a sum of two unbounded quantities that may wrap around before it is compared"""
    if e[0] == "bin" and e[1] == "add" and e[2][0] != "c" and e[3][0] != "c":
        for pr, a, b in facts:
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                m = ("bin", "sub")
                l, r = (a, b) if pr in ("ule", "ult") else (b, a) if pr in ("uge", "ugt") else (None, None)
                if l is not None and l == x and r[:2] == m and r[3] == y:
                    return False
        return True
    return False


def differences(e):
    """(x, y) of the subtractions x - y a sum is made of"""
    if e[0] == "bin" and e[1] in ("add", "sub", "mul"):
        if e[1] == "sub":
            yield e[2], e[3]
        elif e[1] == "add" and e[3][0] == "c" and e[3][1] < 0:
            yield e[2], ("c", -e[3][1])
        yield from differences(e[2])
        yield from differences(e[3])
    elif e[0] == "idx":
        yield from differences(e[1])
        yield from differences(e[2])
    elif e[0] == "tr":
        yield from differences(e[2])


class Stores:
    """locations a function fills before a point: the value last stored to an address, when it is stored once"""

    def __init__(s, b):
        s.b, s.cache = b, {}

    def of(s, fn):
        if fn not in s.cache:
            m = {}
            for i in fn.insts():
                if i.op == "store" and i.bb in fn.dom:
                    m.setdefault(s.b.sx(fn, i.ops[1]), []).append(i)
            s.cache[fn] = {a: l[0] for a, l in m.items() if len(l) == 1}
        return s.cache[fn]

    def facts(s, fn, ins):
        out = []
        for a, i in s.of(fn).items():
            if fn.dominates(i, ins) and (not isinstance(i.ops[0], list) or i.ops[0][:1] == ["c"]):
                v = s.b.ex(fn, i.ops[0])
                if not any(x == ("ld", a, 0) for x in subexprs(v)):
                    out.append(("eq", ("ld", a, 0), v))
        return out
