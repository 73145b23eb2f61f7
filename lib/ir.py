"""Program model over the extracted facts: functions, CFG, canonical value expressions, path-sensitive walk."""
import os, re, sys
from extract import extract, AnalysisError, Unused, REPO

sys.setrecursionlimit(20000)


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "line", "x", "bb", "i", "fn")

    def __init__(s, raw, bb, i, fn):
        s.id, s.op, s.ty, s.ops, s.line, s.x = raw
        s.bb, s.i, s.fn = bb, i, fn

    @property
    def callee(s):
        if s.op == "call" and isinstance(s.x, str) and s.x.startswith("@"):
            return s.x[1:]
        return None

    @property
    def loc(s):
        return "%s:%d" % (s.fn.file, s.line)

    def __repr__(s):
        return "<%s %s %s %s @%s>" % (s.id, s.op, s.ops, s.x, s.loc)


class Function:
    def __init__(s, raw, tu):
        s.name, s.tu = raw["n"], tu
        s.internal = bool(raw["internal"])
        f = raw.get("file", tu)
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        s.file = os.path.normpath(f)
        s.line = raw.get("line", 0)
        s.argt, s.ret, s.sig = raw["argt"], raw["ret"], raw.get("sig", [])
        s.sret, s.va, s.noret = raw["sret"], raw["va"], raw["noret"]
        s.argn = raw.get("argn", [])
        s.names = raw.get("names", {})
        s.blocks = []
        s.byid = {}
        s._succ = None
        for b, rb in enumerate(raw.get("blocks", [])):
            blk = [Inst(r, b, i, s) for i, r in enumerate(rb)]
            s.blocks.append(blk)
            for ins in blk:
                s.byid[ins.id] = ins
        s._dom = s._pdom = None
        s._uses = None

    @property
    def loc(s):
        return "%s:%d" % (s.file, s.line)

    def __repr__(s):
        return "<fn %s>" % s.name

    def insts(s):
        for b in s.blocks:
            for i in b:
                yield i

    @property
    def succ(s):
        if s._succ is None:
            s._succ = []
            for b in s.blocks:
                t = b[-1]
                if t.op == "br":
                    s._succ.append(list(dict.fromkeys(t.x)))
                elif t.op == "switch":
                    s._succ.append(list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1:]])))
                else:
                    s._succ.append([])
            s._pred = [[] for _ in s.blocks]
            for i, ss in enumerate(s._succ):
                for t in ss:
                    s._pred[t].append(i)
        return s._succ

    @property
    def pred(s):
        s.succ
        return s._pred

    def reach(s, start=0, avoid=()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += s.succ[b]
        return seen

    @property
    def dom(s):
        """dom[b] = set of blocks dominating b"""
        if s._dom is None:
            n = len(s.blocks)
            live = s.reach()
            full = set(live)
            dom = {b: set(full) for b in live}
            dom[0] = {0}
            ch = True
            order = sorted(live)
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for p in s.pred[b] if p in live]
                    new = set.intersection(*[dom[p] for p in ps]) if ps else set()
                    new = new | {b}
                    if new != dom[b]:
                        dom[b] = new
                        ch = True
            s._dom = dom
        return s._dom

    def dominates(s, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.i <= b.i
        return b.bb in s.dom and a.bb in s.dom[b.bb]

    def can_reach(s, a, b):
        """some path leads from instruction a to instruction b (strictly after)"""
        if a.bb == b.bb and b.i > a.i:
            return True
        seen, st = set(), list(s.succ[a.bb])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += s.succ[x]
        return b.bb in seen

    @property
    def uses(s):
        if s._uses is None:
            u = {}

            def add(o, ins):
                if isinstance(o, str):
                    if o[0] in "%a":
                        u.setdefault(o, []).append(ins)
                elif isinstance(o, list):
                    if o and o[0] == "c":
                        return
                    for q in o:
                        if isinstance(q, (str, list)):
                            add(q, ins)

            for ins in s.insts():
                for o in ins.ops:
                    add(o, ins)
                if ins.op == "gep":
                    for st in ins.x:
                        if st[0] == "i":
                            add(st[1], ins)
                if ins.op == "call" and isinstance(ins.x, str) and ins.x[0] in "%a" and ins.x != "asm":
                    add(ins.x, ins)
            s._uses = u
        return s._uses

    def calls(s, *names):
        ns = set(names)
        for i in s.insts():
            if i.op == "call":
                c = i.callee
                if c and (not ns or c in ns):
                    yield i


class Program:
    def __init__(s, unit, only=None):
        s.unit = unit
        s.tus = extract(unit, only)
        s.fns = {}
        s.ext = {}
        s.byname = {}
        s.structs, s.enums, s.typedefs, s.globals = {}, {}, {}, {}
        s.decls = {}
        for tu, o in s.tus.items():
            for k, v in o["structs"].items():
                if v["m"] or k not in s.structs:
                    s.structs[k] = v
            s.enums.update(o["enums"])
            s.typedefs.update(o["typedefs"])
            for g in o["globals"]:
                k = g["n"]
                if not g["decl"] or k not in s.globals:
                    if k in s.globals and g["internal"] and not s.globals[k]["decl"] and s.globals[k].get("tu") != tu:
                        s.globals[(tu, k)] = g
                        continue
                    g["tu"] = tu
                    s.globals[k] = g
            for r in o["functions"]:
                if r["decl"]:
                    s.decls.setdefault(r["n"], r)
                    continue
                f = Function(r, tu)
                s.fns[(tu, f.name)] = f
                s.byname.setdefault(f.name, []).append(f)
                if not f.internal:
                    s.ext[f.name] = f
        s._callers = None
        s._enumval = None
        s._name_fields()

    def _name_fields(s):
        """fields a translation unit only knows by position get the name another unit declares"""
        def fix(o):
            if isinstance(o, list):
                if len(o) >= 3 and o[0] == "f" and isinstance(o[2], str) and o[2].startswith("#"):
                    m = s.structs.get(o[1], {}).get("m") or []
                    n = int(o[2][1:])
                    if n < len(m):
                        o[2] = m[n][0]
                    return
                for q in o:
                    if isinstance(q, list):
                        fix(q)
        for f in s.fns.values():
            for b in f.blocks:
                for i in b:
                    if i.op == "gep":
                        fix(i.x)
                    for o in i.ops:
                        if isinstance(o, list) and o and o[0] not in ("c", "s", "cf"):
                            fix(o)

    def resolve(s, tu, name):
        return s.fns.get((tu, name)) or s.ext.get(name)

    def fn(s, name, file=None):
        c = s.byname.get(name, [])
        if file:
            c = [f for f in c if f.file == file or f.tu == file] or c
        if name in s.ext and not file:
            return s.ext[name]
        return c[0] if c else None

    def need(s, name, file=None):
        f = s.fn(name, file)
        if f is None:
            s.unused(name)
            raise AnalysisError("anchor function '%s' not found in the analysed sources" % name)
        return f

    def unused(s, name):
        """a static function that nothing refers to (directly or through other such functions) is not in the IR"""
        for tu, o in s.tus.items():
            u = o.get("unused") or {}
            if name in u:
                raise Unused(name, u[name])
        rx = re.compile(r"^static\b[^;{}]*?\b%s\s*\([^;{}]*\)\s*\{" % re.escape(name), re.M)
        dirs = {os.path.dirname(tu) for tu in s.tus}
        for d in sorted(dirs):
            for fn in sorted(os.listdir(os.path.join(REPO, d))):
                if not fn.endswith((".c", ".h")):
                    continue
                try:
                    with open(os.path.join(REPO, d, fn)) as fh:
                        t = fh.read()
                except (OSError, UnicodeDecodeError):
                    continue
                m = rx.search(t)
                if m:
                    raise Unused(name, "%s:%d" % (os.path.join(d, fn), t.count("\n", 0, m.start()) + 1))

    def unique(s, pred=None):
        """every function once (header-static duplicates collapse on (file, name))"""
        seen = set()
        for f in s.fns.values():
            k = (f.file, f.name)
            if k in seen:
                continue
            seen.add(k)
            if pred is None or pred(f):
                yield f

    def enum(s, name):
        if s._enumval is None:
            s._enumval = {}
            for e in s.enums.values():
                for k, v in e.items():
                    s._enumval.setdefault(k, v)
        if name not in s._enumval:
            raise AnalysisError("enumerator '%s' not found" % name)
        return s._enumval[name]

    def callee(s, ins):
        c = ins.callee
        return s.resolve(ins.fn.tu, c) if c else None

    def callers(s, name):
        if s._callers is None:
            s._callers = {}
            for f in s.unique():
                for i in f.insts():
                    if i.op == "call" and i.callee:
                        s._callers.setdefault(i.callee, []).append(i)
        return s._callers.get(name, [])

    def addr_taken(s, name):
        """instructions/globals that take the address of function `name` (not direct calls)"""
        out = []
        t = "@" + name

        def has(o):
            if isinstance(o, str):
                return o == t
            if isinstance(o, list):
                return any(has(q) for q in o)
            return False

        for f in s.unique():
            for i in f.insts():
                if any(has(o) for o in i.ops):
                    out.append(i)
        return out

    def closure(s, fn, stop=lambda f: False):
        """functions reachable from fn through direct calls"""
        seen, st = {}, [fn]
        while st:
            f = st.pop()
            if (f.tu, f.name) in seen:
                continue
            seen[(f.tu, f.name)] = f
            if stop(f):
                continue
            for i in f.insts():
                if i.op == "call":
                    c = s.callee(i)
                    if c:
                        st.append(c)
        return list(seen.values())


# ---------------------------------------------------------------- expressions
COMMUT = {"add", "mul", "and", "or", "xor"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def _wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if bits > 1 and v >> (bits - 1) else v


def mkcmp(pred, a, b):
    if a[0] == "c" and b[0] != "c":
        a, b, pred = b, a, SWAP.get(pred, pred)
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        m = (1 << 64) - 1
        r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
             "ult": (x & m) < (y & m), "ule": (x & m) <= (y & m), "ugt": (x & m) > (y & m), "uge": (x & m) >= (y & m)}.get(pred)
        if r is not None:
            return ("c", 1 if r else 0)
    # bool-valued comparisons against 0/1
    if b[0] == "c" and pred in ("eq", "ne"):
        z = strip_casts(a)
        if z[0] in ("cmp", "not") and b[1] in (0, 1):
            truth = (pred == "ne") == (b[1] == 0)
            return z if truth else mknot(z)
    # addresses of objects are never null
    if b == ("c", 0) and pred in ("eq", "ne") and a[0] in ("al", "g", "s", "obj", "opnd"):
        return ("c", 1 if pred == "ne" else 0)
    # elements of one array
    if pred in ("eq", "ne") and a[0] == "idx" and b[0] == "idx" and a[1] == b[1] and a[3] == b[3] and a[2][0] == b[2][0] == "c":
        return ("c", 1 if (a[2] == b[2]) == (pred == "eq") else 0)
    if b[0] == "c" and pred == "ult" and b[1] == 1:
        return ("cmp", "eq", a, ("c", 0))
    return ("cmp", pred, a, b)


def mknot(e):
    if e[0] == "c":
        return ("c", 0 if e[1] else 1)
    if e[0] == "cmp" and e[1] in NEG:
        return ("cmp", NEG[e[1]], e[2], e[3])
    if e[0] == "not":
        return e[1]
    return ("not", e)


CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"}


def strip_casts(e):
    while e[0] == "cast":
        e = e[2]
    return e


def strip_all(e):
    """drop casts at every level"""
    if not isinstance(e, tuple):
        return e
    if e[0] == "cast":
        return strip_all(e[2])
    return tuple(strip_all(x) if isinstance(x, tuple) else x for x in e)


def unversion(e):
    """drop the identity of loads/calls so that syntactically equal reads compare equal"""
    if not isinstance(e, tuple):
        return e
    if e[0] == "ld":
        return ("ld", unversion(e[1]), 0)
    if e[0] == "call":
        return ("call", e[1], 0) + tuple(unversion(x) for x in e[3:])
    return tuple(unversion(x) if isinstance(x, tuple) else x for x in e)


def linear(e):
    """sum normal form of an integer/pointer expression: ({term: coefficient}, constant)"""
    e = strip_casts(e)
    if e[0] == "c":
        return {}, e[1]
    if e[0] == "bin" and e[1] in ("add", "sub"):
        a, ca = linear(e[2])
        b, cb = linear(e[3])
        sg = 1 if e[1] == "add" else -1
        r = dict(a)
        for t, k in b.items():
            r[t] = r.get(t, 0) + sg * k
            if not r[t]:
                del r[t]
        return r, ca + sg * cb
    if e[0] == "bin" and e[1] in ("mul", "shl"):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            k = strip_casts(y)[1] if strip_casts(y)[0] == "c" else None
            if k is not None and (e[1] == "mul" or y is e[3]):
                if e[1] == "shl":
                    k = 1 << k
                a, ca = linear(x)
                return {t: v * k for t, v in a.items()}, ca * k
        x, y = sorted((strip_all(e[2]), strip_all(e[3])), key=repr)
        return {("bin", e[1], x, y): 1}, 0
    if e[0] == "idx" and isinstance(e[3], int):
        a, ca = linear(e[1])
        b, cb = linear(e[2])
        r = dict(a)
        for t, k in b.items():
            if e[3] != 1 and t[0] == "bin" and t[1] == "mul":
                pass
            r[t] = r.get(t, 0) + k * e[3]
            if not r[t]:
                del r[t]
        return r, ca + cb * e[3]
    return {strip_all(e): 1}, 0


def iv_form(cond):
    """(kind, form, sign, constant) of an integer comparison: sign*form `pred` constant"""
    pr = cond[1]
    kind = "s" if pr in ("slt", "sle", "sgt", "sge") else "u" if pr in ("ult", "ule", "ugt", "uge") else "e" if pr in ("eq", "ne") else None
    if kind is None:
        return None
    l, kl = linear(cond[2])
    r, kr = linear(cond[3])
    d = dict(l)
    for t, v in r.items():
        d[t] = d.get(t, 0) - v
        if not d[t]:
            del d[t]
    if not d or len(d) > 3:
        return None
    if kind == "u" and (len(d) > 1 or kl or l == {} or (r and kr)):
        return None
    ts = sorted(d.items(), key=lambda x: repr(x[0]))
    sg = 1
    if ts[0][1] < 0:
        sg = -1
        ts = [(t, -v) for t, v in ts]
    return kind, tuple(ts), sg, kr - kl


def iv_range(pr, sg, k):
    """interval of the form implied by sg*form pr k"""
    pr = pr[1:] if pr not in ("eq", "ne") else pr
    if pr == "eq":
        return (sg * k, sg * k)
    if pr == "ne":
        return None
    lo = hi = None
    if pr == "lt":
        hi = k - 1
    elif pr == "le":
        hi = k
    elif pr == "gt":
        lo = k + 1
    else:
        lo = k
    if sg < 0:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    return lo, hi


def iv_decide(cond, facts):
    f = iv_form(cond)
    if f is None:
        return None
    kind, form, sg, k = f
    res = None
    for dom in ((kind,) if kind != "e" else ("s",)):
        iv = facts.get(("iv", dom, form))
        if not iv:
            continue
        lo, hi = iv
        if kind == "e":
            v = sg * k
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                return cond[1] == "ne"
            if lo == hi == v:
                return cond[1] == "eq"
            continue
        for truth in (True, False):
            pr = cond[1] if truth else NEG[cond[1]]
            a, b = iv_range(pr, sg, k)
            # known interval inside [a,b]?
            if (a is None or (lo is not None and lo >= a)) and (b is None or (hi is not None and hi <= b)):
                return truth
    return res


def iv_assume(cond, truth, facts):
    f = iv_form(cond)
    if f is None:
        return
    kind, form, sg, k = f
    pr = cond[1] if truth else NEG[cond[1]]
    r = iv_range(pr, sg, k)
    if r is None:
        # != at the end of a known interval narrows it
        o = facts.get(("iv", "s", form))
        if o:
            lo, hi = o
            v = sg * k
            if lo is not None and v == lo:
                facts[("iv", "s", form)] = (lo + 1, hi)
            elif hi is not None and v == hi:
                facts[("iv", "s", form)] = (lo, hi - 1)
        return
    key = ("iv", "s" if kind == "e" else kind, form)
    lo, hi = facts.get(key, (None, None))
    if r[0] is not None:
        lo = r[0] if lo is None else max(lo, r[0])
    if r[1] is not None:
        hi = r[1] if hi is None else min(hi, r[1])
    facts[key] = (lo, hi)


def subexprs(e):
    if isinstance(e, tuple):
        yield e
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from subexprs(x)


def show(e):
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "a":
        return "arg%s" % e[1]
    if k == "g":
        return e[1]
    if k == "s":
        return '"%s"' % e[1][:40]
    if k == "al":
        return "&" + str(e[-1])
    if k == "fld":
        return "%s->%s" % (show(e[1]), e[3])
    if k == "idx":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "ld":
        return "*(%s)" % show(e[1]) if e[1][0] not in ("fld", "idx") else show(e[1])
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(show(x) for x in e[3:]))
    if k == "bin":
        return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
    if k == "cmp":
        return "(%s %s %s)" % (show(e[2]), e[1], show(e[3]))
    if k == "not":
        return "!" + show(e[1])
    if k == "cast":
        return show(e[2])
    return str(e)


class Ev:
    """evaluates operands of one frame to canonical expressions"""
    __slots__ = ("fn", "args", "env", "fid")

    def __init__(s, fn, args, fid, env=None):
        s.fn, s.args, s.fid = fn, args, fid
        s.env = env if env is not None else {}

    def copy(s):
        return Ev(s.fn, s.args, s.fid, dict(s.env))

    def op(s, o):
        if isinstance(o, str):
            ch = o[0]
            if ch == "%":
                e = s.env.get(o)
                if e is None:
                    ins = s.fn.byid.get(o)
                    if ins is not None and ins.op == "phi":
                        return ("phi", s.fid, o)
                    if ins is None:
                        return ("u", s.fid, o)
                    return s.compute(ins, ("static", s.fid, o))
                return e
            if ch == "@":
                return ("g", o[1:])
            if ch == "a" and o[1:].isdigit():
                n = int(o[1:])
                return s.args[n] if n < len(s.args) else ("a", n)
            return ("u", o)
        k = o[0]
        if k == "c":
            return ("c", o[1])
        if k == "cf":
            return ("cf", o[1])
        if k == "s":
            return ("s", o[1])
        if k == "gep":
            return s.gep(s.op(o[1]), o[2])
        if k == "ce":
            if o[1] in CASTS and len(o) == 3:
                return ("cast", o[1], s.op(o[2]))
            return ("u", "ce")
        return ("u", str(o))

    def gep(s, base, steps):
        e = base
        for st in steps:
            if st[0] == "f":
                e = ("fld", e, st[1], st[2])
            else:
                idx = s.op(st[1])
                if e[0] == "idx" and idx[0] == "c" and e[2][0] == "c" and e[3] == st[2]:
                    e = ("idx", e[1], ("c", e[2][1] + idx[1]), st[2])
                    continue
                e = ("idx", e, idx, st[2])
        return e

    def compute(s, ins, uid):
        op = ins.op
        if op == "gep":
            return s.gep(s.op(ins.ops[0]), ins.x)
        if op == "load":
            return ("ld", s.op(ins.ops[0]), uid)
        if op in ("call", "invoke"):
            c = ins.callee
            n = c if c else "*indirect"
            if c is None and ins.x != "asm":
                n = ("ind", s.op(ins.x))
            return ("call", n, uid) + tuple(s.op(o) for o in ins.ops)
        if op == "alloca":
            return ("al", s.fid, ins.id, ins.ops[0] if ins.ops else ins.id)
        if op == "icmp":
            return mkcmp(ins.x, s.op(ins.ops[0]), s.op(ins.ops[1]))
        if op == "fcmp":
            return ("cmp", "f" + ins.x, s.op(ins.ops[0]), s.op(ins.ops[1]))
        if op in CASTS:
            v = s.op(ins.ops[0])
            if v[0] == "c":
                if op == "zext":
                    src = ins.ops[0]
                    bits = src[2] if isinstance(src, list) and src[0] == "c" else None
                    if bits is None and isinstance(src, str):
                        si = s.fn.byid.get(src)
                        if si is not None and si.ty.startswith("i") and si.ty[1:].isdigit():
                            bits = int(si.ty[1:])
                    if bits and v[1] < 0:
                        return ("c", v[1] & ((1 << bits) - 1))
                    if bits == 1:
                        return ("c", v[1] & 1)
                    return v
                if op == "trunc":
                    return ("c", _wrap(v[1], int(ins.ty[1:])) if ins.ty != "i1" else v[1] & 1)
                return v
            if op in ("zext", "sext", "trunc") and v[0] in ("cmp", "not"):
                return v
            if op == "trunc" and ins.ty == "i1":
                z = strip_casts(v)
                if z[0] in ("cmp", "not"):
                    return z
                return v if v[0] != "cast" else ("cast", op, v, ins.ty)
            return ("cast", op, v, ins.ty)
        if op == "xor":
            a, b = s.op(ins.ops[0]), s.op(ins.ops[1])
            if ins.ty == "i1" and b[0] == "c":
                return mknot(a) if b[1] else a
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = s.op(ins.ops[0]), s.op(ins.ops[1])
            if a[0] == "c" and b[0] == "c":
                bits = int(ins.ty[1:])
                x, y = a[1], b[1]
                try:
                    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                         "xor": lambda: x ^ y, "shl": lambda: x << (y & 63), "lshr": lambda: (x & ((1 << bits) - 1)) >> (y & 63),
                         "ashr": lambda: x >> (y & 63)}[op]()
                    return ("c", _wrap(r, bits))
                except KeyError:
                    pass
            if op == "sub" and b[0] == "c":
                op, b = "add", ("c", -b[1])
            if op in COMMUT and (a[0] == "c" or (b[0] != "c" and repr(unversion(b)) < repr(unversion(a)))):
                a, b = b, a
            if op == "add" and b == ("c", 0):
                return a
            if op == "add" and b[0] == "c" and a[0] == "bin" and a[1] == "add" and a[3][0] == "c":
                return ("bin", "add", a[2], ("c", a[3][1] + b[1])) if a[3][1] + b[1] else a[2]
            return ("bin", op, a, b)
        if op == "extractvalue":
            return ("ext", s.op(ins.ops[0]), ins.x)
        if op == "select":
            c = s.op(ins.ops[0])
            if c[0] == "c":
                return s.op(ins.ops[1] if c[1] else ins.ops[2])
            return ("sel", c, s.op(ins.ops[1]), s.op(ins.ops[2]))
        if op == "phi":
            return ("phi", s.fid, ins.id)
        if op == "cmpxchg":
            return ("cas", s.op(ins.ops[0]), uid, s.op(ins.ops[1]), s.op(ins.ops[2]))
        if op == "atomicrmw":
            return ("rmw", s.op(ins.ops[0]), uid, ins.x, s.op(ins.ops[1]))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            return ("bin", op) + tuple(s.op(o) for o in ins.ops)
        return (op, uid) + tuple(s.op(o) for o in ins.ops)


def static_ev(fn):
    return Ev(fn, [("a", i) for i in range(len(fn.argt))], 0)


def static_expr(fn, operand):
    """canonical expression of an operand, phi nodes left opaque"""
    return static_ev(fn).op(operand)


# ---------------------------------------------------------------- path walk
class E:
    """an event on a path"""
    __slots__ = ("k", "name", "args", "res", "addr", "val", "cond", "truth", "ins", "depth")

    def __init__(s, k, ins, depth, **kw):
        s.k, s.ins, s.depth = k, ins, depth
        s.name = s.args = s.res = s.addr = s.val = s.cond = s.truth = None
        for a, b in kw.items():
            setattr(s, a, b)

    @property
    def loc(s):
        return s.ins.loc if s.ins is not None else "?"

    def __repr__(s):
        if s.k == "call":
            return "%s(%s)@%d" % (s.name if isinstance(s.name, str) else show(s.name[1]), ", ".join(map(show, s.args)), s.ins.line)
        if s.k == "store":
            return "[%s]=%s@%d" % (show(s.addr), show(s.val), s.ins.line)
        if s.k == "assume":
            return "%s%s@%d" % ("" if s.truth else "NOT ", show(s.cond), s.ins.line)
        if s.k == "ret":
            return "ret %s@%d" % (show(s.val) if s.val else "", s.ins.line)
        if s.k in ("cas", "rmw"):
            return "%s[%s]@%d" % (s.k, show(s.addr), s.ins.line)
        if s.k == "load":
            return "load %s@%d" % (show(s.addr), s.ins.line)
        return "%s %s" % (s.k, s.name)


class PathLimit(AnalysisError):
    pass


NORETURN = {"abort", "exit", "_exit", "__assert_fail", "__assert_rtn", "longjmp", "_Exit"}


_reference = None


def fresh(g):
    """a function the rules were not written against (lib/functions.txt): a helper, judged as part of its callers"""
    global _reference
    if _reference is None:
        _reference = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.txt")).read().split())
    return g.name not in _reference


class Walker:
    """Enumerates the feasible-by-syntax paths of a function, descending into callees chosen by `inline`.

    Branches whose outcome is fixed by earlier decisions on the same value are pruned; each block may be entered at most
    `loops`+1 times per activation. Yields lists of events."""

    def __init__(s, prog, inline=lambda f: False, loops=1, max_paths=20000, noreturn=(), max_depth=8, keep_loads=True, max_steps=3000000,
                 track_local=True, vn=False, pure=(), stores=None, blocks=False, sret_local=False, kinds=None, seed=None, give=None):
        s.seed = seed              # address -> value of a location fixed by the scenario under analysis, or None
        s.give = give              # (callee, arguments) -> result fixed by the scenario, or None
        s.kinds = kinds            # finite-domain narrowing of type kinds (see kinds.Kinds)
        s.vn, s.pure = vn, set(pure)
        s.blocks = blocks          # model memcpy/memmove/memset of whole objects as copies of their fields
        s.sret_local = sret_local  # the result object of a struct-returning function is private until it returns
        s.stores = stores or {}  # callee -> (index of address argument, index of value argument): calls that only store
        s.p, s.inline, s.loops, s.maxp = prog, (lambda g: inline(g) or fresh(g)), loops, max_paths
        s.noret = NORETURN | set(noreturn)
        s.maxd = max_depth
        s.keep_loads = keep_loads
        s.track_local = track_local
        s.max_steps = max_steps

    def paths(s, fn, args=None, start=None, facts=None):
        """`start`: instruction to begin at (values computed before it stay symbolic)"""
        s.n = 0
        s.steps = 0
        s.uid = 0
        args = args if args is not None else [("a", i) for i in range(len(fn.argt))]
        if s.sret_local and fn.sret and args and args[0] == ("a", 0):
            args = [("al", -1, "result", "result")] + list(args[1:])
        # explicit continuation stack: state = (frames, events, facts, locals)
        fr = _Frame(fn, Ev(fn, args, 0), 0, 0, None, {0: 1}, None)
        if start is not None:
            fr.bb, fr.i, fr.visits = start.bb, start.i, {start.bb: 1}
        work = [([fr], [], dict(facts or {}), {})]
        s.fids = 0
        while work:
            frames, evs, facts, mem = work.pop()
            r = s._run(frames, evs, facts, mem, work)
            if r is not None:
                s.n += 1
                if s.n > s.maxp:
                    raise PathLimit("more than %d paths in %s (%s)" % (s.maxp, fn.name, fn.loc))
                yield r

    # facts: dict expr -> ("eq", c) | ("ne", frozenset) ; cmp-expr -> bool
    @staticmethod
    def decide(cond, facts):
        if cond[0] == "c":
            return bool(cond[1])
        if cond[0] == "not":
            r = Walker.decide(cond[1], facts)
            return None if r is None else not r
        if cond[0] == "cmp" and cond[1] in ("eq", "ne") and cond[3][0] == "c":
            f = facts.get(strip_casts(cond[2]))
            c = cond[3][1]
            if f:
                if f[0] == "eq":
                    v = f[1] == c
                    return v if cond[1] == "eq" else not v
                if f[0] == "ne" and c in f[1]:
                    return cond[1] == "ne"
        if cond[0] == "cmp" and cond[3][0] == "c":
            f = facts.get(strip_casts(cond[2]))
            if f and f[0] == "eq":
                r = mkcmp(cond[1], ("c", f[1]), cond[3])
                if r[0] == "c":
                    return bool(r[1])
        f = facts.get(cond)
        if f is not None and f[0] == "b":
            return f[1]
        n = mknot(cond)
        f = facts.get(n)
        if f is not None and f[0] == "b":
            return not f[1]
        if cond[0] not in ("cmp", "not"):
            f = facts.get(strip_casts(cond))
            if f:
                if f[0] == "eq":
                    return f[1] != 0
                if f[0] == "ne" and 0 in f[1]:
                    return True
        if cond[0] == "cmp":
            # implied by a recorded comparison over the same operands
            for pr, res in IMPL.get(cond[1], ()):
                f = facts.get(("cmp", pr, cond[2], cond[3]))
                if f is not None and f[0] == "b" and f[1]:
                    return res
            return iv_decide(cond, facts)
        return None

    @staticmethod
    def assume(cond, truth, facts):
        facts[cond] = ("b", truth)
        if cond[0] == "cmp":
            iv_assume(cond, truth, facts)
        if cond[0] == "cmp" and not truth and cond[1] in NEG:
            facts[("cmp", NEG[cond[1]], cond[2], cond[3])] = ("b", True)
        if cond[0] == "not":
            Walker.assume(cond[1], not truth, facts)
            return
        if cond[0] == "cmp" and cond[1] in ("eq", "ne") and cond[3][0] == "c":
            k = strip_casts(cond[2])
            c = cond[3][1]
            if (cond[1] == "eq") == truth:
                facts[k] = ("eq", c)
            else:
                o = facts.get(k)
                facts[k] = ("ne", (o[1] if o and o[0] == "ne" else frozenset()) | {c})
        elif cond[0] not in ("cmp", "c"):
            k = strip_casts(cond)
            if truth:
                o = facts.get(k)
                if not o or o[0] != "eq":
                    facts[k] = ("ne", (o[1] if o and o[0] == "ne" else frozenset()) | {0})
            else:
                facts[k] = ("eq", 0)

    def _run(s, frames, evs, facts, mem, work):
        while True:
            fr = frames[-1]
            fn, ev = fr.fn, fr.ev
            blk = fn.blocks[fr.bb]
            i = fr.i
            if i == 0 and fr.prev is not None:
                # phis evaluate simultaneously
                new = {}
                j = 0
                while j < len(blk) and blk[j].op == "phi":
                    for pb, v in blk[j].ops:
                        if pb == fr.prev:
                            new[blk[j].id] = ev.op(v)
                            break
                    j += 1
                ev.env.update(new)
                i = j
            while i < len(blk):
                ins = blk[i]
                s.steps += 1
                if s.steps > s.max_steps:
                    raise PathLimit("path walk of %s exceeds the step budget" % frames[0].fn.name)
                op = ins.op
                if op == "br":
                    if len(ins.x) == 1:
                        if not s._goto(frames, ins.x[0]):
                            return None
                        break
                    cond = ev.op(ins.ops[0])
                    d = s.decide(cond, facts)
                    kt = s.kinds.split(cond, facts) if s.kinds is not None and d is None else None
                    if kt is not None and not (kt[1] and kt[2]):
                        d = bool(kt[1])
                    if d is None:
                        # other branch goes to the worklist
                        f2 = [f.copy() for f in frames]
                        facts2 = dict(facts)
                        s.assume(cond, False, facts2)
                        if kt is not None:
                            facts2[kt[0]] = kt[2]
                            facts[kt[0]] = kt[1]
                        ev2 = evs + [E("assume", ins, len(frames) - 1, cond=cond, truth=False)]
                        if s._goto(f2, ins.x[1]):
                            work.append((f2, ev2, facts2, dict(mem)))
                        s.assume(cond, True, facts)
                        evs.append(E("assume", ins, len(frames) - 1, cond=cond, truth=True))
                        if not s._goto(frames, ins.x[0]):
                            return None
                    else:
                        if cond[0] != "c":
                            evs.append(E("assume", ins, len(frames) - 1, cond=cond, truth=d))
                        if not s._goto(frames, ins.x[0] if d else ins.x[1]):
                            return None
                    break
                if op == "switch":
                    cond = ev.op(ins.ops[0])
                    f = ("eq", cond[1]) if cond[0] == "c" else facts.get(strip_casts(cond))
                    cases = ins.x[1:]
                    if f and f[0] == "eq":
                        t = next((c[1] for c in cases if c[0] == f[1]), ins.x[0])
                        if not s._goto(frames, t):
                            return None
                        break
                    excl = f[1] if f and f[0] == "ne" else frozenset()
                    for cv, tb in cases:
                        if cv in excl:
                            continue
                        f2 = [q.copy() for q in frames]
                        facts2 = dict(facts)
                        c2 = ("cmp", "eq", cond, ("c", cv))
                        kt = s.kinds.split(c2, facts2) if s.kinds is not None else None
                        if kt is not None:
                            if not kt[1]:
                                continue
                            facts2[kt[0]] = kt[1]
                        s.assume(c2, True, facts2)
                        if s._goto(f2, tb):
                            work.append((f2, evs + [E("assume", ins, len(frames) - 1, cond=c2, truth=True)], facts2, dict(mem)))
                    for cv, tb in cases:
                        s.assume(("cmp", "eq", cond, ("c", cv)), False, facts)
                        kt = s.kinds.split(("cmp", "eq", cond, ("c", cv)), facts) if s.kinds is not None else None
                        if kt is not None:
                            facts[kt[0]] = kt[2]
                            if not kt[2]:
                                return None
                    evs.append(E("assume", ins, len(frames) - 1, cond=("cmp", "in", cond, ("cases", tuple(c[0] for c in cases))), truth=False))
                    if not s._goto(frames, ins.x[0]):
                        return None
                    break
                if op == "ret":
                    v = ev.op(ins.ops[0]) if ins.ops else None
                    if len(frames) == 1:
                        evs.append(E("ret", ins, 0, val=v))
                        return Path(evs, facts, mem)
                    frames.pop()
                    call = fr.call
                    evs.append(E("leave", ins, len(frames), name=fn.name, val=v))
                    pf = frames[-1]
                    if v is not None:
                        pf.ev.env[call.id] = v
                    pf.i = call.i + 1
                    break
                if op == "unreachable":
                    evs.append(E("dead", ins, len(frames) - 1))
                    return Path(evs, facts)
                if op == "call":
                    c = ins.callee
                    args = [ev.op(o) for o in ins.ops]
                    if c in s.noret:
                        evs.append(E("call", ins, len(frames) - 1, name=c, args=args))
                        evs.append(E("dead", ins, len(frames) - 1))
                        return Path(evs, facts)
                    if s.give is not None and c:
                        r = s.give(c, args)
                        if r is not None:
                            ev.env[ins.id] = r
                            evs.append(E("call", ins, len(frames) - 1, name=c, args=args, res=r))
                            i += 1
                            continue
                    tgt = s.p.resolve(fn.tu, c) if c else None
                    if tgt is None and c is None and isinstance(ins.x, str) and ins.x != "asm":
                        t = ev.op(ins.x)
                        if t[0] == "g":
                            tgt = s.p.resolve(fn.tu, t[1])
                            c = t[1]
                    if tgt is not None and len(frames) <= s.maxd and s.inline(tgt) and not any(f.fn is tgt for f in frames):
                        evs.append(E("enter", ins, len(frames) - 1, name=tgt.name, args=args))
                        s.fids += 1
                        fr.i = i
                        frames.append(_Frame(tgt, Ev(tgt, args, s.fids), 0, 0, None, {0: 1}, ins))
                        break
                    if c and c.startswith("x_assertf") and args:
                        # assertf(cond, ...): only continues if cond holds
                        d = s.decide(args[0], facts)
                        if d is False:
                            evs.append(E("dead", ins, len(frames) - 1))
                            return Path(evs, facts)
                        if d is None:
                            s.assume(args[0], True, facts)
                            evs.append(E("assume", ins, len(frames) - 1, cond=args[0], truth=True))
                        i += 1
                        continue
                    if c in s.stores and len(args) > max(s.stores[c]):
                        ia, iv = s.stores[c]
                        a, v = args[ia], args[iv]
                        evs.append(E("store", ins, len(frames) - 1, addr=a, val=v, name=c, args=args))
                        for k in [k for k in mem if (k == a or not rooted_local(k)) and may_alias(a, k)]:
                            del mem[k]
                        if s.vn or rooted_local(a):
                            mem[a] = v
                        i += 1
                        continue
                    s.uid += 1
                    res = ev.compute(ins, s.uid)
                    ev.env[ins.id] = res
                    nm = c if c else ("ind", ev.op(ins.x)) if ins.x != "asm" else "asm"
                    evs.append(E("call", ins, len(frames) - 1, name=nm, args=args, res=res))
                    if s.blocks and c and c.startswith(BLOCKOPS):
                        blockop(c, args, mem)
                        i += 1
                        continue
                    # values whose address escapes to the callee are no longer known
                    for a in args:
                        for q in subexprs(a):
                            if q[0] == "al":
                                for k in [k for k in mem if q in subexprs(k)]:
                                    del mem[k]
                    if s.vn and c not in s.pure and not (c and c.startswith("x_bname")):
                        for k in [k for k in mem if not rooted_local(k)]:
                            del mem[k]
                    i += 1
                    continue
                if op == "store":
                    a, v = ev.op(ins.ops[1]), ev.op(ins.ops[0])
                    evs.append(E("store", ins, len(frames) - 1, addr=a, val=v))
                    if s.blocks:
                        for k in [k for k in mem if k[0] == "blk" and under(a, mem[k])]:
                            del mem[k]
                    if s.track_local and rooted_local(a):
                        mem[a] = v
                    elif s.vn:
                        for k in [k for k in mem if not rooted_local(k) and may_alias(a, k)]:
                            del mem[k]
                        mem[a] = v
                    i += 1
                    continue
                if op == "load":
                    a = ev.op(ins.ops[0])
                    if s.track_local and a in mem:
                        ev.env[ins.id] = mem[a]
                    else:
                        if s.seed is not None:
                            r = s.seed(a)
                            if r is not None:
                                ev.env[ins.id] = r
                                i += 1
                                continue
                        s.uid += 1
                        r = ("ld", a, s.uid)
                        if s.blocks:
                            b = via_block(a, mem)
                            if b is not None:
                                sv = s.seed(b) if s.seed is not None and b[0] != "c" and b not in mem else None
                                if sv is not None:
                                    b = sv
                                elif b[0] != "c" and b in mem:
                                    b = mem[b]
                                elif b[0] != "c":
                                    b = ("ld", b, s.uid)
                                ev.env[ins.id] = mem[a] = b
                                i += 1
                                continue
                        ev.env[ins.id] = r
                        if s.vn and not rooted_local(a):
                            mem[a] = r
                        if s.keep_loads:
                            evs.append(E("load", ins, len(frames) - 1, addr=a, res=r))
                    i += 1
                    continue
                if op in ("cmpxchg", "atomicrmw"):
                    s.uid += 1
                    r = ev.compute(ins, s.uid)
                    ev.env[ins.id] = r
                    evs.append(E("cas" if op == "cmpxchg" else "rmw", ins, len(frames) - 1, addr=ev.op(ins.ops[0]), res=r,
                                 args=[ev.op(o) for o in ins.ops[1:]], name=ins.x if op == "atomicrmw" else "cas"))
                    i += 1
                    continue
                s.uid += 1
                ev.env[ins.id] = ev.compute(ins, s.uid)
                i += 1
            else:
                raise AnalysisError("block without terminator in %s" % fn.name)

    def _goto(s, frames, t):
        fr = frames[-1]
        n = fr.visits.get(t, 0)
        if n > s.loops:
            return False
        fr.visits[t] = n + 1
        fr.prev, fr.bb, fr.i = fr.bb, t, 0
        return True


BLOCKOPS = ("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset")


def under(k, base):
    """k is base or a location inside the object at base"""
    while True:
        if k == base:
            return True
        if k[0] in ("fld", "idx"):
            k = k[1]
        elif k[0] == "cast":
            k = k[2]
        else:
            return False


def rebase(k, a, b):
    if k == a:
        return b
    if k[0] in ("fld", "idx"):
        return (k[0], rebase(k[1], a, b)) + k[2:]
    if k[0] == "cast":
        return k[:2] + (rebase(k[2], a, b),) + k[3:]
    return k


def blockop(c, args, mem):
    dst, src, n = (strip_casts(x) for x in args[:3])
    local = rooted_local(dst)
    for k in list(mem):
        t = k[1] if k[0] in ("blk", "zero") else k
        if under(t, dst) or (not local and not rooted_local(t) and not (under(dst, t) and t != dst) and may_alias(dst, t)):
            del mem[k]
    if n[0] != "c":
        return
    if "memset" in c:
        if src == ("c", 0):
            mem[("zero", dst)] = ("c", 0)
        return
    for k in list(mem):
        if k[0] not in ("blk", "zero") and under(k, src) and k != src:
            mem[rebase(k, src, dst)] = mem[k]
    mem[("blk", dst)] = src


def via_block(a, mem):
    """location (or constant) a load of `a` reads according to the last whole-object copy or clear"""
    k = a
    while True:
        if ("blk", k) in mem:
            return rebase(a, k, mem[("blk", k)])
        if ("zero", k) in mem:
            return ("c", 0)
        if k[0] in ("fld", "idx"):
            k = k[1]
        elif k[0] == "cast":
            k = k[2]
        else:
            return None


IMPL = {
    "sle": (("slt", True), ("eq", True), ("sgt", False)), "sge": (("sgt", True), ("eq", True), ("slt", False)),
    "slt": (("sge", False), ("sgt", False), ("eq", False)), "sgt": (("sle", False), ("slt", False), ("eq", False)),
    "ule": (("ult", True), ("eq", True), ("ugt", False)), "uge": (("ugt", True), ("eq", True), ("ult", False)),
    "ult": (("uge", False), ("ugt", False), ("eq", False)), "ugt": (("ule", False), ("ult", False), ("eq", False)),
    "eq": (("slt", False), ("sgt", False), ("ult", False), ("ugt", False), ("ne", False)),
    "ne": (("slt", True), ("sgt", True), ("ult", True), ("ugt", True), ("eq", False)),
}


def _lastfld(a):
    while a[0] == "cast":
        a = a[2]
    if a[0] == "fld":
        return (a[2], a[3])
    if a[0] == "g":
        return ("global", a[1])
    return None


def may_alias(a, b):
    """type-based: accesses to different fields do not overlap; anything without a field may overlap everything"""
    if a == b:
        return True
    x, y = _lastfld(a), _lastfld(b)
    return x is None or y is None or x == y


def rooted_local(a):
    if a[0] in ("blk", "zero"):
        a = a[1]
    while a[0] in ("fld", "idx", "cast"):
        if a[0] == "idx" and a[2][0] != "c":
            return False
        a = a[2] if a[0] == "cast" else a[1]
    return a[0] == "al"


class _Frame:
    __slots__ = ("fn", "ev", "bb", "i", "prev", "visits", "call")

    def __init__(s, fn, ev, bb, i, prev, visits, call):
        s.fn, s.ev, s.bb, s.i, s.prev, s.visits, s.call = fn, ev, bb, i, prev, visits, call

    def copy(s):
        return _Frame(s.fn, s.ev.copy(), s.bb, s.i, s.prev, dict(s.visits), s.call)


class Path:
    __slots__ = ("ev", "facts", "mem")

    def __init__(s, ev, facts, mem=None):
        s.ev, s.facts, s.mem = ev, facts, mem or {}

    def value_at(s, a):
        """what location `a` holds when the path ends (None: not known)"""
        if a in s.mem:
            return s.mem[a]
        for _ in range(8):
            b = via_block(a, s.mem)
            if b is None or b[0] == "c":
                return b if b is not None or _ == 0 else ("ld", a, 0)
            if b in s.mem:
                return s.mem[b]
            a = b
        return ("ld", a, 0)

    @property
    def dead(s):
        return s.ev and s.ev[-1].k == "dead"

    def calls(s, *names):
        return [e for e in s.ev if e.k == "call" and e.name in names]

    def index(s, e):
        for i, x in enumerate(s.ev):
            if x is e:
                return i
        return -1

    def end_loc(s):
        for e in reversed(s.ev):
            if e.ins is not None:
                return e.ins.loc
        return "?"

    def trace(s, kinds=("assume", "call", "store", "ret", "cas", "rmw")):
        return [repr(e) for e in s.ev if e.k in kinds]


def field_of(addr, struct=None, field=None):
    """(base, struct, field) if addr is a field address"""
    a = strip_casts(addr)
    if a[0] == "fld" and (struct is None or a[2] == struct) and (field is None or a[3] == field):
        return a[1], a[2], a[3]
    return None


def is_load_of(e, struct=None, field=None):
    e = strip_casts(e)
    return e[0] == "ld" and field_of(e[1], struct, field) is not None
