"""R15: operators and conversions compute what the language defines, on every target"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import *
from util import *
from lir import Lir
from emit import *

TECH = "scenario walk of the lowering and code generation functions; emitted templates are given an algebraic meaning and compared with the operator's definition"
SIGNED = ("TYPE_INT", "TYPE_INT8", "TYPE_INT16", "TYPE_INT32", "TYPE_INT64")
UNSIGNED = ("TYPE_UINT", "TYPE_UINT8", "TYPE_UINT16", "TYPE_UINT32", "TYPE_UINT64")
FLOATS = ("TYPE_FLOAT", "TYPE_FLOAT32", "TYPE_FLOAT64")
SIZE = {"TYPE_INT": 8, "TYPE_INT8": 1, "TYPE_INT16": 2, "TYPE_INT32": 4, "TYPE_INT64": 8, "TYPE_UINT": 8, "TYPE_UINT8": 1, "TYPE_UINT16": 2,
        "TYPE_UINT32": 4, "TYPE_UINT64": 8, "TYPE_FLOAT": 8, "TYPE_FLOAT32": 4, "TYPE_FLOAT64": 8, "TYPE_BOOL": 1}
# language operator -> intermediate operation for signed (and float), for unsigned
BIN = {"ADD": ("ADD", "ADD"), "SUB": ("SUB", "SUB"), "MUL": ("MUL", "MUL"), "DIV": ("SDIV", "UDIV"), "REM": ("SREM", "UREM"), "LSHIFT": ("USHL", "USHL"),
       "RSHIFT": ("SSHR", "USHR"), "AND": ("AND", "AND"), "OR": ("OR", "OR"), "XOR": ("XOR", "XOR"), "LT": ("SLT", "USLT"), "LE": ("SLE", "USLE"),
       "GT": ("SGT", "USGT"), "GE": ("SGE", "USGE"), "EE": ("SEE", "SEE"), "NE": ("SNE", "SNE")}
INTONLY = ("REM", "LSHIFT", "RSHIFT", "AND", "OR", "XOR")
BR = {"LT": ("BLT", "BULT"), "LE": ("BLE", "BULE"), "GT": ("BGT", "BUGT"), "GE": ("BGE", "BUGE"), "EE": ("BEE", "BEE"), "NE": ("BNE", "BNE")}
INV = {"LT": "GE", "LE": "GT", "GT": "LE", "GE": "LT", "EE": "NE", "NE": "EE"}
STR = {"ADD": "string_concat", "EE": "string_ee", "NE": "string_ne", "LT": "string_lt", "LE": "string_le", "GT": "string_gt", "GE": "string_ge"}


def scenario(p, entry, fixed, stop=(), inline=None):
    """live paths of entry with the given locations fixed"""
    fn = p.need(entry)

    def seed(a):
        t = table(p, a)
        if t is not None:
            return t
        ch = chain(a)
        return ("c", fixed[ch]) if ch is not None and ch in fixed else None
    small = ("is_unsigned", "is_signed", "is_integer", "is_float", "is_number", "ast_op_is_cmp", "lir_op_uext", "lir_op_sext", "lir_op_trunc", "lir_op_move")

    def inl(f):
        return f.name in small or (f.tu == fn.tu and f.file == fn.file and f.internal and f.name not in stop and not f.name.startswith(("linear_", "lea_")))
    w = Walker(p, inline=inl, vn=True, blocks=True, max_paths=4000, seed=seed, max_depth=4,
               pure=("linear_expr", "temp_var_operand_with_alloc", "temp_var_operand", "linked_push", "linear_lea_builtin_value_struct", "lir_op_new",
                     "lir_operand_type", "type_hash", "type_compare", "bool_operand"))
    for q in w.paths(fn):
        if not q.dead:
            yield q


def evaluated(e):
    """which sub-expression an operand holds the value of"""
    e = strip_casts(e)
    while e[0] == "call" and e[1] == "linear_lea_builtin_value_struct":
        e = strip_casts(e[4])
    if e[0] == "call" and e[1] == "linear_expr":
        a = strip_casts(e[4])
        return chain(a[1] if a[0] == "copy" else a)
    return None


def operand_of(q, e):
    e = strip_casts(e)
    while e[0] == "call" and e[1] == "linear_lea_builtin_value_struct":
        e = strip_casts(e[4])
    if e[0] != "call" or e[1] != "linear_expr":
        return None
    for ev in q.ev:
        if ev.k == "call" and ev.res == e:
            a = strip_casts(ev.args[1])
            c = chain(a)
            if c:
                return c
            # by value: the argument is a local the expression was copied into just before
            src = None
            for f in q.ev:
                if f is ev:
                    break
                if is_copy(f) and strip_casts(f.args[0]) == a:
                    src = chain(f.args[1])
            return src
    return None


def binary(c, p, lir):
    f = p.need("linear_binary")
    c.unit(f.name)
    ops = {k: p.enum("AST_OP_" + k) for k in BIN}
    for op, (sg, un) in BIN.items():
        for kind in SIGNED + UNSIGNED + FLOATS:
            if kind in FLOATS and op in INTONLY:
                continue
            fx = {"1.value>.op": ops[op], "1.value>.left.type.kind": p.enum(kind), "1.value>.right.type.kind": p.enum(kind)}
            n = 0
            for q in scenario(p, "linear_binary", fx):
                n += 1
                e = [o for o in lir.emitted(q, gen=False)]
                want = un if kind in UNSIGNED else sg
                u = "%s %s" % (op, kind)
                if len(e) != 1 or e[0].code != want:
                    c.bad("opcode", u, q.end_loc(), "`%s` on %s is lowered to %s instead of %s" % (op, kind, [o.code for o in e], want), q.trace())
                    continue
                l, r = operand_of(q, e[0].a), operand_of(q, e[0].b)
                c.check("opcode", u, (l, r) == ("1.value>.left", "1.value>.right"), "operands", e[0].loc, "`%s` is computed from %s and %s" % (op, l, r), q.trace())
                t = strip_casts(e[0].r)
                c.check("opcode", u, t == ("a", 2) or (t[0] == "call" and t[1].startswith("temp_var_operand")), "target", e[0].loc, "the result of `%s` is not written to the target" % op, q.trace())
            if not n:
                c.bad("opcode", "%s %s" % (op, kind), f.loc, "operator %s on %s is not lowered" % (op, kind), [])
    for op, rt in STR.items():
        fx = {"1.value>.op": ops[op], "1.value>.left.type.kind": p.enum("TYPE_STRING"), "1.value>.right.type.kind": p.enum("TYPE_STRING")}
        for q in scenario(p, "linear_binary", fx):
            e = lir.emitted(q, gen=False)
            ok = len(e) == 1 and e[0].code == "RT_CALL" and e[0].rt in (rt, "rt_%s_out" % rt, "rt_" + rt)
            if ok:
                args = [operand_of(q, a) for a in e[0].args]
                ok = args[-2:] == ["1.value>.left", "1.value>.right"]
            c.check("opcode", "string " + op, ok, "string", q.end_loc(), "string operator %s is lowered to %s" % (op, e), q.trace())


def branches(c, p, lir):
    f = p.need("linear_cmp_neg")
    c.unit(f.name)
    for op in BR:
        for kind in SIGNED + UNSIGNED + FLOATS + ("TYPE_BOOL",):
            if kind == "TYPE_BOOL" and op not in ("EE", "NE"):
                continue
            for isif in (1, 0):
                fx = {"1.assert_type": p.enum("AST_EXPR_BINARY"), "1.value>.op": p.enum("AST_OP_" + op), "1.value>.left.type.kind": p.enum(kind)}
                n = 0
                fn = p.need("linear_cmp_neg")
                for q in scenario(p, "linear_cmp_neg", fx):
                    # the walk leaves is_if open: keep the paths of this case
                    if any(e.k == "assume" and mentions_arg(e.cond, 3) and taken(e) != bool(isif) for e in q.ev):
                        continue
                    n += 1
                    e = lir.emitted(q, gen=False)
                    o = INV[op] if isif else op
                    want = BR[o][1 if kind in UNSIGNED else 0]
                    u = "%s %s %s" % ("if" if isif else "for", op, kind)
                    ok = len(e) == 1 and e[0].code == want
                    if ok:
                        ok = operand_of(q, e[0].a) == "1.value>.left" and operand_of(q, e[0].b) == "1.value>.right" and strip_casts(e[0].r) == ("a", 2)
                    c.check("branch", u, ok, u, q.end_loc(), "a condition `%s` on %s branches with %s" % (op, kind, e), q.trace())
                c.need(n > 0, "no path of linear_cmp_neg for %s" % op)
    for q in scenario(p, "linear_cmp_neg", {"1.assert_type": p.enum("AST_EXPR_IDENT")}):
        e = lir.emitted(q, gen=False)
        isif = next((taken(x) for x in q.ev if x.k == "assume" and mentions_arg(x.cond, 3)), None)
        ok = len(e) == 1 and e[0].code in ("BEE", "BNE") and isif is not None
        if ok:
            vals = [x for x in (e[0].a, e[0].b) if strip_casts(x)[0] == "call" and strip_casts(x)[1] == "bool_operand"]
            ok = len(vals) == 1
            if ok:
                v = const(strip_casts(vals[0])[3])
                sense = bool(v) == (e[0].code == "BEE")
                ok = sense == (not isif)
        c.check("branch", "condition", ok, "value", q.end_loc(), "a boolean condition branches on the wrong value: %s" % e, q.trace())


def mentions_arg(cond, i):
    return any(x == ("a", i) for x in [cond] + list(subexprs(cond)) if isinstance(x, tuple))


def taken(e):
    """truth of the argument itself in an assumption about it"""
    cnd, t = e.cond, e.truth
    cnd = strip_casts(cnd)
    while True:
        if cnd[0] == "not":
            cnd, t = strip_casts(cnd[1]), not t
        elif cnd[0] == "cmp" and const(cnd[3]) == 0:
            t = t if cnd[1] == "ne" else not t
            cnd = strip_casts(cnd[2])
        else:
            return t


def conversions(c, p, lir):
    f = p.need("linear_as_expr")
    c.unit(f.name)
    for s in SIGNED + UNSIGNED + FLOATS + ("TYPE_BOOL",):
        for t in SIGNED + UNSIGNED + FLOATS:
            if s == "TYPE_BOOL" and t in FLOATS:
                continue
            fx = {"1.value>.src.type.kind": p.enum(s), "1.value>.target_type.kind": p.enum(t), "1.value>.src.type.storage_size": SIZE[s],
                  "1.value>.target_type.storage_size": SIZE[t], "1.type.kind": p.enum(t)}
            a, b = SIZE[s], SIZE[t]
            if s in FLOATS and t in FLOATS:
                want = ("FEXT",) if b > a else ("FTRUNC",) if b < a else ("MOVE",)
            elif t in FLOATS:
                want = ("UITOF",) if s in UNSIGNED else ("SITOF",)
            elif s in FLOATS:
                want = ("FTOUI",) if t in UNSIGNED else ("FTOSI",)
            elif s == "TYPE_BOOL":
                want = ("UEXT", "MOVE") if b == 1 else ("UEXT",)
            elif b > a:
                want = ("UEXT",) if s in UNSIGNED else ("SEXT",)
            else:
                want = ("TRUNC",) if b < a else ("MOVE",)
            n = 0
            for q in scenario(p, "linear_as_expr", fx):
                if any(e.k == "call" and e.name == "linear_super_move" for e in q.ev):
                    continue  # same type: plain move
                n += 1
                e = lir.emitted(q, gen=False)
                u = "%s to %s" % (s, t)
                ok = len(e) == 1 and e[0].code in want and operand_of(q, e[0].a) == "1.value>.src"
                if ok:
                    r = strip_casts(e[0].r)
                    ok = r == ("a", 2) or (r[0] == "call" and r[1].startswith("temp_var_operand"))
                c.check("convert", u, ok, u, q.end_loc(), "conversion from %s to %s is lowered to %s instead of %s" % (s, t, e, "/".join(want)), q.trace())
            if not n:
                c.bad("convert", "%s to %s" % (s, t), f.loc, "the conversion from %s to %s is not lowered" % (s, t), [])


def unary(c, p, lir):
    f = p.need("linear_unary")
    c.unit(f.name)
    for op, want in (("NEG", "NEG"), ("BNOT", "NOT"), ("NOT", "XOR")):
        fx = {"1.value>.op": p.enum("AST_OP_" + op)}
        if op == "NOT":
            fx["1.value>.operand.type.kind"] = p.enum("TYPE_BOOL")
        n = 0
        for q in scenario(p, "linear_unary", fx):
            e = lir.emitted(q, gen=False)
            st = [x for x in q.ev if x.k == "store" and (key_of(x.addr) or ("", ""))[0] == "lir_imm_t" or x.k == "store" and fldname(x.addr) in ("int_value", "f64_value", "bool_value", "<anon>")]
            if st:
                v = strip_casts(st[-1].val)
                if op == "NEG":
                    ok = v[0] == "bin" and (v[1] == "sub" and const(v[2]) == 0 or v[1] in ("fneg",)) or v[0] == "bin" and v[1] == "fsub" or v[0] == "fneg"
                else:
                    ok = op == "NOT"
                c.check("unary", "imm " + op, ok, "imm" + op, st[-1].loc, "the immediate operand of `%s` becomes %s" % (op, show(v)), q.trace())
                continue
            n += 1
            ok = len(e) == 1 and e[0].code == want and operand_of(q, e[0].a) == "1.value>.operand"
            if ok and op == "NOT":
                b = strip_casts(e[0].b)
                ok = b[0] == "call" and b[1] == "bool_operand" and const(b[3]) in (1, -1)
            c.check("unary", op, ok, op, q.end_loc(), "unary %s is lowered to %s" % (op, e), q.trace())
        c.need(n > 0, "no path of linear_unary for %s" % op)


def folding(c, p):
    """constant folding computes the operator on the two literals, left then right"""
    f = p.need("analyzer_constant_folding")
    c.unit(f.name)
    lit = p.enum("AST_EXPR_LITERAL")
    pos = chain_arg(f)
    ints = {"ADD": "add", "SUB": "sub", "MUL": "mul", "DIV": "sdiv", "REM": "srem", "AND": "and", "OR": "or", "XOR": "xor", "LSHIFT": "shl", "RSHIFT": "ashr"}
    fls = {"ADD": "fadd", "SUB": "fsub", "MUL": "fmul", "DIV": "fdiv"}
    A = "%d" % pos
    for table_, lk, conv in ((ints, "TYPE_INT", "strtoll"), (fls, "TYPE_FLOAT", "strtod")):
        for op in BIN:
            fx = {A + ".assert_type": p.enum("AST_EXPR_BINARY"), A + ".value>.op": p.enum("AST_OP_" + op), A + ".value>.left.assert_type": lit, A + ".value>.right.assert_type": lit,
                  A + ".value>.left.value>.kind": p.enum(lk), A + ".value>.right.value>.kind": p.enum(lk)}
            for q in fold_paths(p, f, fx):
                pr = [e for e in q.ev if e.k == "call" and e.name in ("snprintf", "sprintf", "__snprintf_chk")]
                if not pr:
                    continue
                v = strip_casts(pr[-1].args[-1])
                ok = op in table_ and v[0] == "bin" and v[1] == table_[op] and side(v[2], conv) == "left" and side(v[3], conv) == "right"
                if conv == "strtod" and op == "REM":
                    ok = v[0] == "call" and v[1] == "fmod" and side(v[3], conv) == "left" and side(v[4], conv) == "right"
                if ok and op in ("DIV", "REM") and conv == "strtoll":
                    ok = any(a[0] == "ne" for a in nonzero(q, v[3]))
                c.check("fold", "%s %s" % (lk, op), ok, op, pr[-1].loc, "`%s` of two literals is folded to %s" % (op, show(v)), q.trace())
    for op, want in (("NEG", "sub"), ("BNOT", "xor")):
        fx = {A + ".assert_type": p.enum("AST_EXPR_UNARY"), A + ".value>.op": p.enum("AST_OP_" + op), A + ".value>.operand.assert_type": lit, A + ".value>.operand.value>.kind": p.enum("TYPE_INT")}
        for q in fold_paths(p, f, fx):
            pr = [e for e in q.ev if e.k == "call" and e.name in ("snprintf", "sprintf")]
            if not pr:
                continue
            v = strip_casts(pr[-1].args[-1])
            ok = v[0] == "bin" and v[1] == want and (const(v[2]) == 0 if op == "NEG" else -1 in (const(v[2]), const(v[3])))
            c.check("fold", op, ok, op, pr[-1].loc, "`%s` of a literal is folded to %s" % (op, show(v)), q.trace())


def chain_arg(f):
    for i, t in enumerate(f.argt):
        if i == len(f.argt) - 1:
            return i
    return 0


def fold_paths(p, f, fx):
    def seed(a):
        t = table(p, a)
        if t is not None:
            return t
        ch = chain(a)
        return ("c", fx[ch]) if ch is not None and ch in fx else None
    w = Walker(p, inline=lambda g: g.name in ("is_number", "is_float", "is_integer", "is_signed", "is_unsigned") or (g.tu == f.tu and g.file == f.file and g.internal and g.name not in (f.name, "analyzer_expr")),
               vn=True, blocks=True, max_paths=4000, seed=seed, pure=(f.name, "strtoll", "__isoc23_strtoll", "strtod", "analyzer_expr"))
    for q in w.paths(f):
        if not q.dead:
            yield q


def side(e, conv):
    e = strip_casts(e)
    if e[0] != "call" or not e[1].endswith(conv):
        return None
    ch = chain(e[3]) or ""
    return "left" if ".left." in ch else "right" if ".right." in ch else None


def nonzero(q, v):
    v = strip_casts(v)
    return [(pr, a, b) for pr, a, b, e in known(q, len(q.ev)) if strip_casts(a) == v and const(b) == 0 and pr == "ne"]


# ---- machine code -----------------------------------------------------------------------------------------------------------

A, B = ("A",), ("B",)
COM = ("add", "mul", "and", "or", "xor", "fadd", "fmul", "eq")


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(norm(x) for x in t)
    if t[0] == "gt":
        t = ("lt", t[1], t[3], t[2])
    elif t[0] == "ge":
        t = ("le", t[1], t[3], t[2])
    elif t[0] == "ne":
        t = ("not", ("eq", t[1], t[2]))
    if t[0] == "lt" and isinstance(t[3], tuple) and t[3][:1] == ("plus",) and t[3][2] == 1:
        t = ("le", t[1], t[2], t[3][1])
    if t[0] == "not":
        x = t[1]
        if x[0] == "not":
            return x[1]
        if x[0] == "lt":
            return ("le", x[1], x[3], x[2])
        if x[0] == "le":
            return ("lt", x[1], x[3], x[2])
    if t[0] in COM and len(t) == 3 and repr(t[1]) > repr(t[2]):
        t = (t[0], t[2], t[1])
    return t


def want_term(code, fl):
    f = {"ADD": "fadd", "SUB": "fsub", "MUL": "fmul", "SDIV": "fdiv"} if fl else {"ADD": "add", "SUB": "sub", "MUL": "mul", "SDIV": "sdiv", "UDIV": "udiv", "SREM": "srem", "UREM": "urem"}
    if code in f:
        return norm((f[code], A, B))
    m = {"AND": "and", "OR": "or", "XOR": "xor", "USHL": "shl", "USHR": "lshr", "SSHR": "ashr"}
    if code in m:
        return norm((m[code], A, B))
    if code == "NOT":
        return ("inv", A)
    if code == "NEG":
        return ("fneg", A) if fl else ("neg", A)
    cc = code[1:] if code[0] in "SB" else code
    body_ = code[2:] if code[:2] in ("US", "BU") else code[1:]
    s = "f" if fl else "u" if code[:2] in ("US", "BU") else "s"
    k = {"LT": "lt", "LE": "le", "GT": "gt", "GE": "ge"}.get(body_)
    if k:
        return norm((k, s, A, B))
    if body_ in ("EE", "NE"):
        return norm(("eq" if body_ == "EE" else "ne", A, B))
    return None


class Sim:
    """algebraic meaning of a straight-line template"""

    def __init__(s, arch, q, fl):
        s.arch, s.q, s.fl = arch, q, fl
        s.v = {"first": A, "second": B, "output": ("old",)}
        s.flags = None
        s.jump = None
        s.skip = None
        for e in q.ev:
            if e.k == "assume" and e.truth:
                x = strip_casts(e.cond)
                if x[0] == "call" and x[1] == "asm_operand_equal":
                    r = {strip_casts(y)[1] for y in x[3:5] if strip_casts(y)[0] == "opnd"}
                    if r == {"first", "output"}:
                        s.v["output"] = A
                        s.same = True

    def get(s, o):
        if isinstance(o, str):
            return s.v.get(o, ("?", o))
        if o[0] == "reg":
            return ("c", 0) if o[1] in ("xzr", "wzr", "r_x0") else s.v.get(o, ("?", o))
        if o[0] == "part":
            return s.v.get(("part", o[1]), s.v.get(o[1], ("?", o)))
        if o[0] in ("imm", "val"):
            e = o[-1]
            return s.imm(e)
        return ("?", o)

    def imm(s, e):
        if const(e) is not None:
            return ("c", const(e))
        l, k = linear(e)
        if len(l) == 1:
            (t, n), = l.items()
            if mentions_role(t, "second"):
                if n == 1:
                    return B if k == 0 else ("plus", B, k)
                if n == -1 and k == 0:
                    return ("neg", B)
        if mentions_role(e, "second"):
            return B if e[0] == "ld" else ("?", show(e)[:40])
        return ("?", show(e)[:40])

    def put(s, o, t):
        if isinstance(o, tuple) and o[0] == "part":
            s.v[("part", o[1])] = t
            s.v[o[1]] = t
        else:
            s.v[o] = t


def mentions_role(e, role):
    return any(x == ("opnd", role) for x in [e] + list(subexprs(e)) if isinstance(x, tuple))


def amd64(s, code):
    two = {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor", "sal": "shl", "shl": "shl", "shr": "lshr", "sar": "ashr", "fmul": "fmul", "fdiv": "fdiv"}
    cc = {"l": ("lt", "s"), "le": ("le", "s"), "g": ("gt", "s"), "ge": ("ge", "s"), "b": ("lt", "u"), "be": ("le", "u"), "a": ("gt", "u"), "ae": ("ge", "u")}

    def cond(x):
        a, b = s.flags
        if x == "e":
            return ("eq", a, b)
        if x == "ne":
            return ("ne", a, b)
        k = cc.get(x)
        if not k:
            return ("?", x)
        if s.fl:
            return (k[0], "f", a, b) if k[1] == "u" else ("?", "signed condition on floats")
        return (k[0], k[1], a, b)
    for i in code:
        m, o = i.mn, i.ops
        if m in two and len(o) == 2:
            op = two[m]
            if s.fl and op in ("add", "sub"):
                op = "f" + op
            if op == "xor" and o[0] == o[1]:
                s.put(o[0], ("c", 0))
            else:
                s.put(o[0], (op, s.get(o[0]), s.get(o[1])))
        elif m in ("inc", "dec"):
            # only stands for adding the constant one
            ok = any(mentions_role(e.cond, "second") or "second" in (chain_any(e.cond) or "") for e in s.q.ev if e.k == "assume" and e.truth and e.cond[0] == "cmp" and e.cond[1] == "eq" and const(e.cond[3]) == 1)
            s.put(o[0], ("add" if m == "inc" else "sub", s.get(o[0]), B if ok else ("c", 1)))
            if s.fl:
                return None
        elif m == "imul":
            if len(o) == 3:
                s.put(o[0], ("mul", s.get(o[1]), s.get(o[2])))
            elif len(o) == 2:
                s.put(o[0], ("mul", s.get(o[0]), s.get(o[1])))
            else:
                s.put("output", ("mul", s.v["output"], s.get(o[0])))
        elif m == "mov":
            s.put(o[0], s.get(o[1]))
        elif m == "neg":
            s.put(o[0], ("fneg" if s.fl else "neg", s.get(o[0])))
        elif m == "not":
            s.put(o[0], ("inv", s.get(o[0])))
        elif m == "cmp":
            s.flags = (s.get(o[0]), s.get(o[1]))
        elif m.startswith("set") and s.flags:
            s.put(o[0], cond(m[3:]))
        elif m.startswith("j") and s.flags:
            s.jump = cond(m[1:])
            s.put("output", s.jump)
        else:
            return ("?", m)
    return s.v["output"]


def chain_any(e):
    for x in [e] + list(subexprs(e)):
        if isinstance(x, tuple):
            try:
                r = chain(x)
            except Exception:
                r = None
            if r and "second" in r:
                return r
    return None


ARMC = {"EQ": ("eq",), "NE": ("ne",), "LT": ("lt", "s"), "LE": ("le", "s"), "GT": ("gt", "s"), "GE": ("ge", "s"), "LO": ("lt", "u"), "CC": ("lt", "u"),
        "LS": ("le", "u"), "HI": ("gt", "u"), "HS": ("ge", "u"), "CS": ("ge", "u"), "MI": ("lt", "f")}


def arm64(s, code, conds):
    three = {"ADD": "add", "SUB": "sub", "MUL": "mul", "SDIV": "sdiv", "UDIV": "udiv", "AND": "and", "ORR": "or", "EOR": "xor", "LSL": "shl", "LSR": "lshr", "ASR": "ashr",
             "FADD": "fadd", "FSUB": "fsub", "FMUL": "fmul", "FDIV": "fdiv"}

    def cond(x):
        k = ARMC.get(x)
        if not k:
            return ("?", x)
        if len(k) == 1:
            return (k[0],) + s.flags[1:]
        if s.flags[0] == "f":
            return (k[0], "f") + s.flags[1:] if x in ("LT", "LE", "GT", "GE", "MI", "LS", "LO", "HI", "HS") and not x in ("HS", "HI", "LO") else ("?", x + " on floats")
        return (k[0], k[1]) + s.flags[1:] if k[1] != "f" else ("?", x)
    for i in code:
        m, o = i.mn, i.ops
        if m in three and len(o) == 3:
            a, b = s.get(o[1]), s.get(o[2])
            if m == "SUB" and a == ("c", 0):
                s.put(o[0], ("neg", b))
            elif m in ("ADD", "SUB") and b == ("neg", B):
                s.put(o[0], ("sub" if m == "ADD" else "add", a, B))
            else:
                s.put(o[0], (three[m], a, b))
        elif m == "MSUB":
            d, x, y = s.get(o[1]), s.get(o[2]), s.get(o[3])
            s.put(o[0], ({"sdiv": "srem", "udiv": "urem"}.get(d[0], "?"), d[1], d[2]) if d[0] in ("sdiv", "udiv") and (d[1], d[2]) == (y, x) else ("?", "msub"))
        elif m in ("MOV", "MOVIMM"):
            s.put(o[0], s.get(o[1]))
        elif m == "MVN":
            s.put(o[0], ("inv", s.get(o[1])))
        elif m == "NEG":
            s.put(o[0], ("neg", s.get(o[1])))
        elif m == "FNEG":
            s.put(o[0], ("fneg", s.get(o[1])))
        elif m in ("CMP", "CMN", "FCMP"):
            x, y = s.get(o[0]), s.get(o[1])
            if m == "CMN":
                # comparing with the negated immediate
                st = [e for e in s.q.ev if e.k == "store" and mentions_role(e.addr, "second")]
                y = B if st and s.imm(U(st[-1].val)) == ("neg", B) and y in (B, ("neg", B)) else ("?", "cmn")
            elif m == "CMP" and any(e.k == "store" and mentions_role(e.addr, "second") for e in s.q.ev):
                y = ("?", "immediate changed")
            s.flags = ("f" if m == "FCMP" else "i", x, y)
        elif m == "CSET" and s.flags:
            s.put(o[0], cond(conds.get(const(o[1][-1]), "?")))
        elif m.startswith("B") and m[1:] in ARMC and s.flags:
            s.put("output", cond(m[1:]))
        else:
            return ("?", m)
    return s.v["output"]


def riscv(s, code):
    three = {"ADD": "add", "SUB": "sub", "MUL": "mul", "DIV": "sdiv", "DIVU": "udiv", "REM": "srem", "REMU": "urem", "AND": "and", "OR": "or", "XOR": "xor", "SLL": "shl",
             "SRL": "lshr", "SRA": "ashr", "ADDW": "add", "SUBW": "sub", "MULW": "mul", "DIVW": "sdiv", "DIVUW": "udiv", "REMW": "srem", "REMUW": "urem", "SLLW": "shl", "SRLW": "lshr", "SRAW": "ashr",
             "ADDI": "add", "ANDI": "and", "ORI": "or", "XORI": "xor", "SLLI": "shl", "SRLI": "lshr", "SRAI": "ashr", "ADDIW": "add", "SLLIW": "shl", "SRLIW": "lshr", "SRAIW": "ashr",
             "FADD_S": "fadd", "FADD_D": "fadd", "FSUB_S": "fsub", "FSUB_D": "fsub", "FMUL_S": "fmul", "FMUL_D": "fmul", "FDIV_S": "fdiv", "FDIV_D": "fdiv"}
    cmp_ = {"SLT": ("lt", "s"), "SLTU": ("lt", "u"), "SLTI": ("lt", "s"), "SLTIU": ("lt", "u"), "FLT_S": ("lt", "f"), "FLT_D": ("lt", "f"), "FLE_S": ("le", "f"), "FLE_D": ("le", "f")}
    br = {"BEQ": ("eq",), "BNE": ("ne",), "BLT": ("lt", "s"), "BGE": ("ge", "s"), "BLTU": ("lt", "u"), "BGEU": ("ge", "u")}
    skip = None
    for i in code:
        m, o = i.mn, i.ops
        if m in cmp_ and len(o) == 3:
            a, b = s.get(o[1]), s.get(o[2])
            t = cmp_[m] + (a, b)
            if m == "SLTIU" and b == ("c", 1) and a[0] == "xor":
                t = ("eq", a[1], a[2])
            elif m == "SLTU" and a == ("c", 0) and b[0] == "xor":
                t = ("ne", b[1], b[2])
            s.put(o[0], t)
        elif m in ("FEQ_S", "FEQ_D"):
            s.put(o[0], ("eq", s.get(o[1]), s.get(o[2])))
        elif m in three and len(o) == 3:
            a, b = s.get(o[1]), s.get(o[2])
            if m == "XORI" and b == ("c", 1) and a[0] in ("lt", "le", "eq", "ne", "not"):
                s.put(o[0], ("not", a))
            elif m == "XORI" and b == ("c", -1):
                s.put(o[0], ("inv", a))
            elif m in ("SUB", "SUBW") and a == ("c", 0):
                s.put(o[0], ("neg", b))
            elif three[m] == "add" and b == ("neg", B):
                s.put(o[0], ("sub", a, B))
            else:
                s.put(o[0], (three[m], a, b))
        elif m in ("MV", "MOVIMM", "LI"):
            s.put(o[0], s.get(o[1]))
        elif m == "NOT":
            s.put(o[0], ("inv", s.get(o[1])))
        elif m in ("NEG", "NEGW"):
            s.put(o[0], ("neg", s.get(o[1])))
        elif m in ("FNEG_S", "FNEG_D"):
            s.put(o[0], ("fneg", s.get(o[1])))
        elif m in ("FSGNJN_S", "FSGNJN_D"):
            s.put(o[0], ("fneg", s.get(o[1])) if o[1] == o[2] else ("?", m))
        elif m in br and len(o) == 3:
            k = br[m]
            a, b = s.get(o[0]), s.get(o[1])
            if b == ("c", 0) and a[0] in ("lt", "le", "eq", "ne", "not"):
                skip = ("not", a) if m == "BEQ" else a if m == "BNE" else ("?", m)
            else:
                a, b = zero(s, a), zero(s, b)
                skip = k + (a, b)
            if s.get(o[2]) != ("c", 8):
                return ("?", "skip distance")
        elif m == "J" and skip is not None:
            s.put("output", ("not", skip))
        else:
            return ("?", m)
    return s.v["output"]


def zero(s, t):
    """the zero register stands for an immediate the path knows to be zero"""
    if t == ("c", 0) and any(e.k == "assume" and e.truth and e.cond[0] == "cmp" and e.cond[1] == "eq" and const(e.cond[3]) == 0 and mentions_role(e.cond, "second") for e in s.q.ev):
        return B
    return t


INTC = ("ADD", "SUB", "MUL", "AND", "OR", "XOR", "USHL", "USHR", "SSHR", "NEG", "NOT", "SLT", "SLE", "SGT", "SGE", "SEE", "SNE", "USLT", "USLE", "USGT", "USGE",
        "BLT", "BLE", "BGT", "BGE", "BEE", "BNE", "BULT", "BULE", "BUGT", "BUGE")
FLC = ("ADD", "SUB", "MUL", "SDIV", "NEG", "SLT", "SLE", "SGT", "SGE", "SEE", "SNE", "BLT", "BLE", "BGT", "BGE", "BEE", "BNE")


def machine(c, p, arch):
    E = Emit(p, arch)
    c.unit(arch + "_native_op")
    codes = INTC if arch == "amd64" else INTC + ("SDIV", "UDIV", "SREM", "UREM")
    for fl, cs in ((False, codes), (True, FLC)):
        for code in cs:
            if fl and code[0] == "B" and arch == "riscv64":
                continue
            fx = {"1.code": p.enum("LIR_OPCODE_" + code)}
            z = 8
            for r in ("first", "second", "output"):
                fx["$%s.size" % r] = z
                fx["1.%s>.size" % r] = z
            fx["1.first>.value>.flag"] = (1 << p.enum("LIR_FLAG_ALLOC_FLOAT")) if fl else (1 << p.enum("LIR_FLAG_ALLOC_INT"))
            if code[:2] in ("SL", "SG", "SE", "SN") or code[:2] == "US" and code[2] in "LG":
                fx["$output.size"] = fx["1.output>.size"] = 1
            if arch == "riscv64":
                fx["$first.type"] = p.enum("RISCV64_ASM_OPERAND_FREG" if fl else "RISCV64_ASM_OPERAND_REG")
            want = want_term(code, fl)
            seen = set()
            u = "%s %s%s" % (arch, "float " if fl else "", code)
            isint = dict.fromkeys(("first", "second", "output"), not fl)
            for q, ins in E.walk(arch + "_native_op", fx, isint):
                k = repr(ins)
                sim = Sim(arch, q, fl)
                got = amd64(sim, ins) if arch == "amd64" else arm64(sim, ins, E.conds) if arch == "arm64" else riscv(sim, ins)
                if got is None:
                    continue
                got = norm(got)
                if (k, got) in seen:
                    continue
                seen.add((k, got))
                c.check("machine", u, got == want, u, ins[-1].ev.loc if ins else q.end_loc(), "%s emits `%s`, which computes %s" % (u, "; ".join(map(str, ins))[:200], term(got)), q.trace())
            c.need(seen, "no template for %s on %s" % (code, arch))


def term(t):
    if isinstance(t, tuple):
        return t[0] if len(t) == 1 else "%s(%s)" % (t[0], ", ".join(term(x) for x in t[1:]))
    return str(t)


WIDTH = {"TYPE_UINT8": 1, "TYPE_INT8": 1, "TYPE_UINT16": 2, "TYPE_INT16": 2, "TYPE_UINT32": 4, "TYPE_INT32": 4, "TYPE_UINT": 8, "TYPE_INT": 8, "TYPE_UINT64": 8, "TYPE_INT64": 8}


def sizes(a, b=None, o=None):
    fx = {}
    for r, z in (("first", a), ("second", b), ("output", o)):
        if z:
            fx["$%s.size" % r] = z
            fx["1.%s>.size" % r] = z
    return fx


def division(c, p):
    """amd64: the divide instruction, and what the high half of the dividend holds when it runs"""
    E = Emit(p, "amd64")
    ext = {2: "cwd", 4: "cdq", 8: "cqo"}
    isint = {"first": True, "second": True, "output": True}
    for code, mn in (("SDIV", "idiv"), ("UDIV", "div")):
        for z in (1, 2, 4, 8):
            fx = {"1.code": p.enum("LIR_OPCODE_" + code)}
            fx.update(sizes(None, z, z))
            seen = set()
            for q, ins in E.walk("amd64_native_op", fx, isint, limit=20000):
                k = tuple((i.mn, repr(i.ops)) for i in ins)
                if k in seen:
                    continue
                seen.add(k)
                u = "amd64 %s %d" % (code, z)
                names = [i.mn for i in ins]
                ok = names and names[-1] == mn and ins[-1].ops == ["second"]
                if ok and mn == "div":
                    ok = len(ins) == 1
                elif ok:
                    ok = len(ins) == 2 and (names[0] == "movsx" and ins[0].ops == [("reg", "ax"), ("reg", "al")] if z == 1 else names[0] == ext[z])
                c.check("divide", u, ok, u, ins[-1].ev.loc if ins else q.end_loc(), "%s of %d bytes emits `%s`" % (code, z, "; ".join(map(str, ins))), q.trace())
            c.need(seen, "no template for %s" % code)


def lowered(c, p, lir):
    """amd64: divisions and shifts keep their operation and take the result from the right register"""
    f = p.need("amd64_lower_factor")
    c.unit(f.name)
    regs = ("al", "ah", "ax", "rax", "rdx", "dx")
    for code, want, rem in (("SDIV", "SDIV", 0), ("UDIV", "UDIV", 0), ("SREM", "SDIV", 1), ("UREM", "UDIV", 1)):
        n = 0
        for q in lower_paths(p, f, {"1.code": p.enum("LIR_OPCODE_" + code)}):
            e = low(lir, q)
            n += 1
            dv = [i for i, o in enumerate(e) if o.code in ("SDIV", "UDIV", "SREM", "UREM")]
            u = "amd64 lower " + code
            if len(dv) != 1 or e[dv[0]].code != want:
                c.bad("divide", u, q.end_loc(), "%s is lowered to %s" % (code, [o.code for o in e]), q.trace())
                continue
            i = dv[0]
            d = e[i]
            c.check("divide", u, d.b is not None and origin(q, d.b) == "second", u + " divisor", d.loc, "the divisor of %s is %s" % (code, show(d.b)), q.trace())
            res = register(d.r)
            c.check("divide", u, res in (("ah", "rdx") if rem else ("al", "rax")), u + " result", d.loc, "the result of %s is taken from %s" % (code, res), q.trace())
            mv = [o for o in e[:i] if o.code == "MOVE" and register(o.r) in ("al", "rax")]
            c.check("divide", u, len(mv) == 1 and origin(q, mv[0].a) == "first", u + " dividend", d.loc, "the dividend of %s is not the left operand" % code, q.trace())
            cl = [o for o in e[:i] if o.code == "CLR" and register(o.r) in ("ax", "ah", "rdx", "dx")]
            cpos = [k for k, o in enumerate(e[:i]) if o in cl]
            mpos = [k for k, o in enumerate(e[:i]) if o in mv]
            byte = res in ("al", "ah")
            c.check("divide", u, bool(cl) and (not byte or bool(mpos) and cpos[0] < mpos[0]), u + " high", d.loc, "the high half of the dividend of %s is not cleared" % code, q.trace())
            out = [o for o in e[i + 1:] if o.code == "MOVE" and chain(strip_casts(o.r)) == "1.output>"]
            c.check("divide", u, len(out) == 1 and strip_casts(out[0].a) == strip_casts(d.r), u + " output", d.loc, "the result of %s does not reach the output operand" % code, q.trace())
        c.need(n > 0, "no path of amd64_lower_factor for %s" % code)
    f = p.need("amd64_lower_shift")
    c.unit(f.name)
    for code in ("USHL", "USHR", "SSHR"):
        for q in lower_paths(p, f, {"1.code": p.enum("LIR_OPCODE_" + code)}):
            e = low(lir, q)
            s = [(i, o) for i, o in enumerate(e) if o.code in ("USHL", "USHR", "SSHR")]
            ok = len(s) == 1 and s[0][1].code == code
            if ok:
                i, o = s[0]
                src = [x for x in e[:i] if x.code == "MOVE" and strip_casts(x.r) == strip_casts(o.a)]
                cnt = [x for x in e[:i] if x.code == "MOVE" and register(x.r) == register(o.b) == "cl"]
                dst = [x for x in e[i + 1:] if x.code == "MOVE" and chain(strip_casts(x.r)) == "1.output>" and strip_casts(x.a) == strip_casts(o.r)]
                ok = len(src) == 1 and origin(q, src[0].a) == "first" and len(cnt) == 1 and origin(q, cnt[0].a) == "second" and len(dst) == 1 and strip_casts(o.r) == strip_casts(o.a)
            c.check("divide", "amd64 lower " + code, ok, code, q.end_loc(), "%s is lowered to %s" % (code, e), q.trace())
    f = p.need("amd64_lower_ternary")
    c.unit(f.name)
    for q in lower_paths(p, f, {}):
        e = low(lir, q)
        s = [(i, o) for i, o in enumerate(e) if o.code != "MOVE"]
        ok = len(s) == 1
        if ok:
            i, o = s[0]
            src = [x for x in e[:i] if x.code == "MOVE" and strip_casts(x.r) == strip_casts(o.a)]
            dst = [x for x in e[i + 1:] if x.code == "MOVE" and chain(strip_casts(x.r)) == "1.output>" and strip_casts(x.a) == strip_casts(o.r)]
            ok = len(src) == 1 and origin(q, src[0].a) == "first" and origin(q, o.b) == "second" and len(dst) == 1
        c.check("divide", "amd64 lower ternary", ok, "ternary", q.end_loc(), "a three operand instruction is lowered to %s" % e, q.trace())


def lower_paths(p, f, fx):
    def seed(a):
        ch = chain(a)
        return ("c", fx[ch]) if ch is not None and ch in fx else None
    w = Walker(p, inline=lambda g: g.tu == f.tu and g.file == f.file and g.internal and g.name not in ("amd64_convert_first_to_temp", "amd64_lower_mul"), vn=True, blocks=True, max_paths=2000, seed=seed, sret_local=True,
               pure=("lir_operand_type", "temp_var_operand", "lir_reg_operand", "operand_new", "lir_regs_operand", "linked_push", "lir_op_new", "lir_op_move", "amd64_convert_first_to_temp", "type_kind_new", "linked_new"))
    for q in w.paths(f):
        if not q.dead:
            yield q


def low(lir, q):
    out = []
    for i, e in enumerate(q.ev):
        if e.k == "call" and e.name == "linked_push" and len(e.args) > 1:
            o = lir.op(e.args[1])
            if o is None:
                continue
            o.ev, o.i = e, i
            out.append(o)
    return out


def register(e):
    if e is None:
        return None
    e = strip_casts(e)
    if e[0] == "call" and e[1] in ("lir_reg_operand", "operand_new"):
        for x in e[3:]:
            for y in [x] + list(subexprs(x)):
                if isinstance(y, tuple) and y[:1] == ("g",):
                    return y[1]
    return None


def origin(q, e):
    """the operand of the lowered instruction an expression stands for"""
    e = strip_casts(e)
    while e[0] == "call" and e[1] == "amd64_convert_first_to_temp":
        e = strip_casts(e[5])
    ch = chain(e)
    return {"1.first>": "first", "1.second>": "second"}.get(ch)


def machine_conv(c, p):
    """amd64 conversions by source and destination width"""
    E = Emit(p, "amd64")
    ii = {"first": True, "second": True, "output": True}
    for code, mn in (("SEXT", "movsx"), ("UEXT", "movzx")):
        for a, b in ((1, 2), (1, 4), (1, 8), (2, 4), (2, 8), (4, 8)):
            each(c, E, p, code, a, b, lambda q, ins: [i.mn for i in ins][-1:] in ([mn], [mn + "d"]) and ins[-1].ops[0] in ("output", ("part", "output", "")) and ins[-1].ops[1] == "first" and len(ins) == 1
                 or code == "UEXT" and a == 4 and len(ins) == 1 and ins[0].mn == "mov", ii)
    for a, b in ((8, 4), (8, 2), (8, 1), (4, 2), (4, 1), (2, 1)):
        def ok(q, ins):
            if not ins:  # same register: nothing to do
                return any(e.k == "assume" and e.truth and e.cond[0] == "call" and e.cond[1] == "asm_operand_equal" for e in q.ev)
            return len(ins) == 1 and ins[0].mn == "mov" and ins[0].ops[0] == "output" and ins[0].ops[1][:2] == ("part", "first") and WIDTH.get(ins[0].ops[1][2]) == b
        each(c, E, p, "TRUNC", a, b, ok, ii)
    for b in (4, 8):
        cv = "cvtsi2ss" if b == 4 else "cvtsi2sd"
        for a in (1, 2, 4, 8):
            def ok(q, ins):
                r = [i for i in ins if not (i.mn == "xor" and i.ops[0] == i.ops[1] == "output")]
                if not r or r[-1].mn != cv or r[-1].ops[0] != "output":
                    return False
                src = r[-1].ops[1]
                if src == "first":
                    return len(r) == 1 and a >= 4
                return len(r) == 2 and r[0].mn == "movsx" and r[0].ops == [src, "first"] and src[:2] == ("part", "first") and WIDTH.get(src[2], 0) >= 4
            each(c, E, p, "SITOF", a, b, ok, {"first": True, "output": False})

            def uok(q, ins):
                r = [i for i in ins if not (i.mn == "xor" and i.ops[0] == i.ops[1] == "output")]
                if a == 8:
                    return wide(r, cv, "addss" if b == 4 else "addsd")
                if not r or r[-1].mn != cv or r[-1].ops[0] != "output":
                    return False
                src = r[-1].ops[1]
                return len(r) == 2 and r[0].mn in ("movzx", "mov") and r[0].ops == [src, "first"] and src[:2] == ("part", "first") and WIDTH.get(src[2], 0) > a and WIDTH.get(src[2], 0) >= 4
            each(c, E, p, "UITOF", a, b, uok, {"first": True, "output": False})
    for a in (4, 8):
        cv = "cvttss2si" if a == 4 else "cvttsd2si"
        for code in ("FTOSI", "FTOUI"):
            for b in (1, 2, 4, 8):
                def fok(q, ins):
                    r = [i for i in ins if i.mn == cv]
                    rest = [i for i in ins if i.mn != cv]
                    if len(r) != 1 or r[0].ops[1] != "first" or any(i.mn not in ("movzx", "mov") for i in rest):
                        return False
                    d = r[0].ops[0]
                    w = b if d == "output" else WIDTH.get(d[2], 0) if d[:2] == ("part", "output") else 0
                    return (w > b if code == "FTOUI" else w >= b) and w >= 4
                each(c, E, p, code, a, b, fok, {"first": False, "output": True})
    each(c, E, p, "FEXT", 4, 8, lambda q, ins: [i.mn for i in ins] == ["cvtss2sd"] and ins[0].ops == ["output", "first"], {"first": False, "output": False})
    each(c, E, p, "FTRUNC", 8, 4, lambda q, ins: [i.mn for i in ins] == ["cvtsd2ss"] and ins[0].ops == ["output", "first"], {"first": False, "output": False})


def wide(ins, cv, add):
    """unsigned 64 bit to float: exact below 2^63, otherwise half (keeping the lost bit) converted and doubled"""
    lab = {repr(i.ops[0]): k for k, i in enumerate(ins) if i.mn == "label"}
    outs = []
    st = [(0, {"first": A, "output": ("c", 0)}, None, ())]
    while st:
        k, v, fl, cs = st.pop()
        v = dict(v)
        for _ in range(60):
            if k >= len(ins):
                outs.append((frozenset(cs), v["output"]))
                break
            i = ins[k]
            m, o = i.mn, i.ops
            g = lambda x: v.get(x if isinstance(x, str) else repr(x), ("c", const(x[1])) if isinstance(x, tuple) and x[0] == "imm" else ("?",))
            if m == "cmp":
                fl = ("cmp", g(o[0]), g(o[1]))
            elif m == "test":
                fl = ("cmp", g(o[0]), ("c", 0)) if o[0] == o[1] else ("?",)
            elif m in ("shr",):
                fl = ("carry", g(o[0]))
                v[o[0]] = ("lshr", g(o[0]), g(o[1]))
            elif m == "or":
                v[o[0]] = ("or", g(o[0]), g(o[1]))
            elif m == cv:
                v[o[0]] = ("cvt", g(o[1]))
            elif m in (add, "add"):
                v[o[0]] = ("fadd", g(o[0]), g(o[1]))
            elif m == "mov":
                v[o[0] if isinstance(o[0], str) else repr(o[0])] = g(o[1])
            elif m == "jmp":
                k = lab.get(repr(o[0]), 10**6)
                continue
            elif m in ("jl", "js", "jge", "jns", "jae", "jb", "jnc", "jc"):
                if fl is None:
                    return False
                if m in ("jl", "js", "jge", "jns"):
                    if fl != ("cmp", A, ("c", 0)):
                        return False
                    name, t = "neg", m in ("jl", "js")
                else:
                    if fl[0] != "carry" or fl[1] != A:
                        return False
                    name, t = "odd", m in ("jb", "jc")
                st.append((k + 1, dict(v), fl, cs + ((name, not t),)))
                cs = cs + ((name, t),)
                k = lab.get(repr(o[0]), 10**6)
                continue
            elif m != "label":
                return False
            k += 1
    half = ("lshr", A, ("c", 1))
    dbl = lambda x: ("fadd", ("cvt", x), ("cvt", x))
    want = {(frozenset({("neg", False)}), ("cvt", A)), (frozenset({("neg", True), ("odd", False)}), dbl(half)), (frozenset({("neg", True), ("odd", True)}), dbl(("or", half, ("c", 1))))}
    return set(outs) == want


def each(c, E, p, code, a, b, ok, isint):
    fx = {"1.code": p.enum("LIR_OPCODE_" + code)}
    fx.update(sizes(a, None, b))
    u = "amd64 %s %d to %d" % (code, a, b)
    seen = set()
    for q, ins in E.walk("amd64_native_op", fx, isint):
        k = repr(ins)
        good = bool(ok(q, ins))
        if (k, good) in seen:
            continue
        seen.add((k, good))
        c.check("width", u, good, u, ins[-1].ev.loc if ins else q.end_loc(), "%s bytes emits `%s`" % (u, "; ".join(map(str, ins))[:300]), q.trace())
    c.need(seen, "no template for " + u)


def body(c):
    c.rule("opcode", "each binary operator becomes the operation of its operands' signedness, left operand first", 150)
    c.rule("branch", "a condition branches with the operator's sense (for) or its opposite (if), with the matching signedness", 100)
    c.rule("convert", "each conversion becomes the operation of the source's sign and the two widths", 150)
    c.rule("unary", "negation and complement become the matching operation", 3)
    c.rule("fold", "an expression of literals folds to the operator applied to them in order", 10)
    c.rule("machine", "the emitted machine code computes the intermediate operation", 100)
    c.rule("divide", "amd64 division extends the dividend by sign, and takes quotient and remainder from their registers", 12)
    c.rule("width", "amd64 conversion code has the source's sign and width", 40)
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    lir = Lir(p)
    for s in (binary, branches, conversions, unary):
        c.section(s, c, p, lir)
    c.section(folding, c, p)
    for arch in ("amd64", "arm64", "riscv64"):
        c.section(machine, c, p, arch)
    c.section(division, c, p)
    c.section(lowered, c, p, lir)
    c.section(machine_conv, c, p)


main("R15", TECH, body)
