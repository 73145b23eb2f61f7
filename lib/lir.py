"""The intermediate code a lowering function emits, read off each of its paths.

A path of a lowering function is a sequence of calls that append instructions to the current function.  `emitted` returns
those instructions in order; `flows` follows the branches inside the emitted sequence, so rules speak about the generated
code and not about the statements that generate it."""
from util import *

PUSH = ("linked_push", "push_rt_call")
MAKERS = {  # constructor -> (opcode, index of first, second, result)
    "lir_op_move": ("MOVE", 1, None, 0), "lir_op_call_arg_move": ("MOVE", 1, None, 0), "lir_op_lea": ("LEA", 1, None, 0),
    "lir_op_uext": ("UEXT", 1, None, 0), "lir_op_sext": ("SEXT", 1, None, 0), "lir_op_trunc": ("TRUNC", 1, None, 0),
    "lir_op_bal": ("BAL", None, None, 0), "lir_op_label": ("LABEL", None, None, 0), "lir_op_label_with_prefix": ("LABEL", None, None, 1),
    "lir_op_local_label": ("LABEL", None, None, 1), "lir_op_nop_def": ("NOP", None, None, 0), "lir_op_nop_use": ("NOP", 0, None, None),
    "lir_op_output": (None, None, None, 1), "lir_op_safepoint": ("SAFEPOINT", None, None, None), "lir_stack_alloc": ("ALLOC", None, None, 2),
}
LEAVES = {"linear_bal_error": 1}  # emits a jump away; argument that names the target
BRANCH = {"BLT", "BLE", "BGT", "BGE", "BULT", "BULE", "BUGT", "BUGE", "BEE", "BNE"}


class Op:
    __slots__ = ("code", "a", "b", "r", "rt", "args", "ev", "i")

    def __init__(s, code, a=None, b=None, r=None, rt=None, args=(), ev=None, i=0):
        s.code, s.a, s.b, s.r, s.rt, s.args, s.ev, s.i = code, a, b, r, rt, args, ev, i

    @property
    def loc(s):
        return s.ev.loc if s.ev else ""

    def __repr__(s):
        sh = lambda x: "-" if x is None else show(x)
        if s.code in ("RT_CALL", "CALL", "GEN"):
            return "%s %s(%s) -> %s" % (s.code, s.rt, ", ".join(sh(x) for x in s.args), sh(s.r))
        return "%s %s, %s -> %s" % (s.code, sh(s.a), sh(s.b), sh(s.r))


class Lir:
    def __init__(s, prog):
        s.p = prog
        s.code = {}
        for e in prog.enums.values():
            for k, v in e.items():
                if k.startswith("LIR_OPCODE_"):
                    s.code.setdefault(v, k[len("LIR_OPCODE_"):])
        if not s.code:
            raise AnalysisError("opcode enumeration not found")
        s.reach = Reach(prog, PUSH)

    def op(s, x):
        """instruction built by an expression, or None"""
        x = strip_casts(x)
        if x[0] != "call":
            return None
        n, a = x[1], x[3:]
        if n in ("lir_op_new", "lir_op_with_pos"):
            return Op(s.code.get(const(a[0]), "?"), a[1], a[2], a[3])
        if n in MAKERS:
            c, i, j, k = MAKERS[n]
            get = lambda t: a[t] if t is not None and t < len(a) else None
            o = Op(c or s.code.get(const(a[0]), "?"), get(i), get(j), get(k))
            return o
        if n in ("lir_rtcall", "lir_call"):
            return Op("RT_CALL" if n == "lir_rtcall" else "CALL", rt=s.text(a[0]), args=tuple(a[3:]), r=a[1])
        return None

    @staticmethod
    def text(e):
        e = strip_casts(e)
        return e[1] if e[0] == "s" else None

    def emitted(s, q, gen=True):
        out = []
        for i, e in enumerate(q.ev):
            if e.k != "call":
                continue
            if e.name == "linked_push" and len(e.args) > 1:
                o = s.op(e.args[1])
                if o is None:
                    a = strip_casts(e.args[0])
                    if a[0] == "ld" and key_of(a) and key_of(a)[1] == "operations":
                        o = Op("?")
                    else:
                        continue
            elif e.name == "push_rt_call":
                o = Op("RT_CALL", rt=s.text(e.args[1]), r=None if is_null(e.args[2]) else e.args[2], args=tuple(e.args[4:]))
            elif gen and isinstance(e.name, str):
                g = s.p.resolve(e.ins.fn.tu, e.name)
                if g is None or not s.reach(g):
                    continue
                o = Op("GEN", rt=e.name, args=tuple(e.args), r=e.res)
            else:
                continue
            o.ev, o.i = e, i
            out.append(o)
        return out

    @staticmethod
    def label(e):
        """identity of a label operand"""
        e = strip_casts(e)
        while e[0] == "call" and e[1] in ("lir_label_operand", "lir_copy_label_operand"):
            e = strip_casts(e[3])
        return e

    def flows(s, ops, limit=4096):
        """execution paths through an emitted sequence: lists of (op, taken); ends with ('exit', label) or ('end', None)"""
        at = {}
        for i, o in enumerate(ops):
            if o.code == "LABEL" and o.r is not None:
                at[s.label(o.r)] = i
        res, st = [], [(0, (), frozenset())]
        while st:
            i, tr, seen = st.pop()
            while True:
                if i >= len(ops):
                    res.append((list(tr), ("end", None)))
                    break
                o = ops[i]
                if o.code == "BAL" or o.code in BRANCH:
                    l = s.label(o.r)
                    tgt = at.get(l)
                    if o.code in BRANCH:
                        st.append((i + 1, tr + ((o, False),), seen))
                    tr = tr + ((o, True),)
                    if tgt is None:
                        res.append((list(tr), ("exit", l)))
                        break
                    if (i, tgt) in seen:
                        break
                    seen = seen | {(i, tgt)}
                    i = tgt
                    continue
                tr = tr + ((o, None),)
                if o.code == "GEN" and o.rt in LEAVES:
                    res.append((list(tr), ("exit", strip_casts(o.args[LEAVES[o.rt]]))))
                    break
                i += 1
            if len(res) > limit:
                raise AnalysisError("too many flows through emitted code")
        return res

    @staticmethod
    def boolean(e):
        """constant of a bool_operand"""
        e = strip_casts(e)
        if e[0] == "call" and e[1] in ("bool_operand", "int_operand"):
            k = const(e[3])
            return None if k is None else bool(k)
        return None

    def truth(s, o, taken):
        """(operand, truth value) learnt from taking/not taking a branch on a boolean operand"""
        if o.code not in ("BEE", "BNE"):
            return None
        for x, y in ((o.a, o.b), (o.b, o.a)):
            k = s.boolean(x)
            if k is not None:
                eq = (o.code == "BEE") == taken
                return y, k if eq else not k
        return None
