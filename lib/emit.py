"""Machine code templates, read off the paths of the code generators.

A native code generator maps one intermediate instruction to a short list of machine instructions.  `Emit.walk` follows every
path of a generator for one fixed scenario (opcode, operand classes and widths) and returns the instruction list each path
appends, with the operands named by the role they play (first, second, output, a fixed register, an immediate)."""
from util import *


def U(e):
    return unversion(strip_all(e))


def chain(e):
    """textual access path of an address or value: `1.value>left.type.kind`"""
    e = strip_casts(e)
    if e[0] == "a":
        return str(e[1])
    if e[0] == "g":
        return e[1]
    if e[0] == "opnd":
        return "$" + e[1]
    if e[0] == "fld":
        b = chain(e[1])
        return None if b is None else b + "." + e[3]
    if e[0] == "ld":
        b = chain(e[1])
        return None if b is None else b + ">"
    return None


def table(prog, e):
    """value of a constant table element"""
    e = strip_casts(e)
    if e[0] != "idx" or e[1][0] != "g" or e[2][0] != "c":
        return None
    g = prog.globals.get(e[1][1])
    init = g.get("init") if g else None
    if not init:
        return None
    if init[0] == "zero":
        return ("c", 0)
    if init[0] != "arr" or not 0 <= e[2][1] < len(init) - 1:
        return None
    v = init[e[2][1] + 1]
    if isinstance(v, list) and v[0] == "c":
        return ("c", v[1])
    if isinstance(v, list) and v[0] == "s":
        return ("s", v[1])
    if isinstance(v, str) and v.startswith("@"):
        return ("g", v[1:])
    return None


class Ins:
    __slots__ = ("mn", "ops", "ev")

    def __init__(s, mn, ops, ev):
        s.mn, s.ops, s.ev = mn, ops, ev

    def __repr__(s):
        return "%s %s" % (s.mn, ", ".join(map(str, s.ops)))


class Emit:
    def __init__(s, prog, arch):
        s.p, s.arch = prog, arch
        s.names = {}
        pre = {"arm64": "R_", "riscv64": "RV_"}.get(arch)
        if pre:
            for t, e in prog.enums.items():
                if t and t.startswith(arch + "_asm_raw_opcode"):
                    for k, v in e.items():
                        if k.startswith(pre):
                            s.names[v] = k[len(pre):]
            if not s.names:
                raise AnalysisError("opcode enumeration of %s not found" % arch)
        s.conds = {}
        for t, e in prog.enums.items():
            for k, v in e.items():
                if k.startswith("ARM64_COND_"):
                    s.conds[v] = k[len("ARM64_COND_"):]
        s.kinds = {v: k for e in prog.enums.values() for k, v in e.items() if k.startswith("TYPE_")}

    def walk(s, entry, fixed, isint, limit=6000):
        """fixed: access path -> constant; isint: role -> operand is an integer"""
        p = s.p
        fn = p.need(entry)
        n = [0]

        def role(a):
            c = chain(a)
            return {"1.first>": "first", "1.second>": "second", "1.output>": "output", "1.addend>": "addend"}.get(c)

        def seed(a):
            t = table(p, a)
            if t is not None:
                return t
            c = chain(a)
            if c is not None and c in fixed:
                return ("c", fixed[c])
            return None

        def give(name, args):
            if name in ("mallocz", "calloc", "malloc"):
                n[0] += 1
                return ("obj", n[0])
            if name.startswith("lir_operand_trans_"):
                r = role(args[2])
                return ("opnd", r) if r else None
            if name.endswith("_is_integer_operand"):
                r = role(args[0])
                return ("c", 1 if isint[r] else 0) if r in isint else None
            if name == "reg_select":
                return ("rsel", strip_casts(args[0]), args[1])
            if name.endswith("_mov_imm"):
                return ("c", 0)
            return None
        w = Walker(p, inline=lambda f: f.tu == fn.tu and f.name not in ("asm_operand_equal", "str_equal", "slice_push", "slice_new", "slice_concat", "label_ident_with_unique"),
                   loops=6, vn=True, blocks=True, max_paths=limit, seed=seed, give=give, kinds=None, max_depth=6,
                   pure=("slice_push", "slice_new", "slice_concat", "asm_operand_equal", "str_equal"))
        for q in w.paths(fn):
            if q.dead:
                continue
            yield q, s.code(q)

    def code(s, q):
        objs, out = {}, []
        for e in q.ev:
            if e.k == "store":
                a = U(e.addr)
                path = []
                while a[0] in ("fld", "idx"):
                    path.append(a[3] if a[0] == "fld" else a[2])
                    a = U(a[1])
                if a[0] == "obj":
                    objs.setdefault(a[1], {})[tuple(reversed(path))] = e.val
            elif e.k == "call" and e.name and str(e.name).startswith("llvm.memcpy"):
                a = U(e.args[0])
                path = []
                while a[0] in ("fld", "idx"):
                    path.append(a[3] if a[0] == "fld" else a[2])
                    a = U(a[1])
                if a[0] == "obj":
                    objs.setdefault(a[1], {})[tuple(reversed(path)) or ("<copy>",)] = ("copy", e.args[1])
            elif e.k == "call" and isinstance(e.name, str) and e.name.endswith("_mov_imm"):
                out.append(Ins("MOVIMM", [s.operand(e.args[2], objs), ("imm", s.num(e.args[3]))], e))
            elif e.k == "call" and e.name == "slice_push":
                v = U(e.args[1])
                if v[0] != "obj":
                    out.append(Ins("?", [], e))
                    continue
                o = objs.get(v[1], {})
                mn = o.get(("name",)) or o.get(("raw_opcode",))
                if mn is None:
                    out.append(Ins("?", [], e))
                    continue
                mn = strip_casts(mn)
                if mn[0] == "s":
                    name = mn[1]
                elif mn[0] == "c" and mn[1] in s.names:
                    name = s.names[mn[1]]
                else:
                    name = "?"
                ops = []
                for i in range(5):
                    x = o.get(("operands", ("c", i)))
                    if x is None or is_null(x):
                        break
                    ops.append(s.operand(x, objs))
                out.append(Ins(name, ops, e))
        return out

    def num(s, e):
        e = U(e)
        return e

    def operand(s, e, objs):
        e = strip_casts(e)
        if e[0] == "opnd":
            return e[1]
        if e[0] == "obj":
            o = objs.get(e[1], {})
            for k, v in o.items():
                if k[-1] in ("value", "<anon>", "reg", "<copy>", "") or k[0] == "<anon>":
                    x = v[1] if v[0] == "copy" else v
                    x = strip_casts(x)
                    if x[0] == "ld":
                        x2 = strip_casts(x[1])
                        if x2[0] == "g":
                            return ("reg", x2[1])
                    y = x[1] if x[0] == "ld" else x
                    for z in [x] + list(subexprs(x)):
                        if isinstance(z, tuple) and z[:1] == ("rsel",):
                            c = chain(z[1]) or ""
                            kd = s.kinds.get(const(z[2]), "?")
                            who = c[1:].split(".")[0].split(">")[0] if c.startswith("$") else "?"
                            return ("part", who, kd)
                    if x[0] == "g":
                        return ("reg", x[1])
                    if x[0] == "obj":
                        oo = objs.get(x[1], {})
                        vals = [vv for kk, vv in oo.items() if kk[-1] in ("value", "name")]
                        if vals:
                            return ("imm" if ("value",) in oo else "sym", U(vals[0]))
            vals = [(k, v) for k, v in o.items() if k[-1] not in ("type", "size")]
            if vals:
                k, v = vals[0]
                v = strip_casts(v)
                return ("val", k[-1], U(v))
        return ("?", show(e)[:60])
