"""Must-visit analysis of AST passes: which child members of a construct a pass hands on to itself on every path."""
from ir import *
from util import *

PTRS = {"list_t*", "slice_t*", "ast_expr_t", "ast_expr_t*", "ast_stmt_t*", "ast_call_t*", "ast_fndef_t*", "ast_var_decl_t", "ast_var_decl_t*",
        "ast_tuple_destr_t*", "type_t"}


def children(p, struct):
    s = p.structs.get(struct)
    if not s:
        raise AnalysisError("no debug type '%s'" % struct)
    return [m[0] for m in s["m"] if m[3] in PTRS]


class Pass:
    """functions of one source file; `roots` are the names that continue the traversal"""

    def __init__(s, p, file, roots, tag=("assert_type", "ast_expr_t", "ast_stmt_t")):
        s.p, s.file, s.roots, s.tag = p, file, set(roots), tag
        s.cr = CReach(p, s.roots)
        s.memo, s.al, s.never = {}, {}, NORETURN

    def family(s, f, name):
        if name in s.roots:
            return True
        g = s.p.resolve(f.tu, name)
        return g is not None and g.file == s.file and s.cr(g)

    def aliases(s, f):
        """local objects filled by copying: alloca -> the expressions copied into it"""
        if f not in s.al:
            m = {}
            for i in f.insts():
                if i.op == "call" and i.callee and "memcpy" in i.callee:
                    d = static_expr(f, i.ops[0])
                    src = static_expr(f, i.ops[1])
                elif i.op == "store":
                    d = static_expr(f, i.ops[1])
                    src = static_expr(f, i.ops[0])
                else:
                    continue
                base = d
                while base[0] in ("fld", "idx"):
                    base = base[1]
                if base[0] == "al" or base[0] == "call":
                    m.setdefault(base, []).append(src)
            for i in f.insts():
                if i.op == "phi":
                    m[static_expr(f, i.id)] = [static_expr(f, o[1]) for o in i.ops]
            s.al[f] = m
        return s.al[f]

    def mention(s, f, operand, keys):
        """does the operand's value derive from one of the members `keys` = {(struct, field)}"""
        al, seen, st = s.aliases(f), set(), [static_expr(f, operand)]
        while st:
            e = st.pop()
            if e in seen:
                continue
            seen.add(e)
            for x in subexprs(e):
                if x[0] == "fld" and (x[2], x[3]) in keys:
                    return True
                if x in al:
                    st += al[x]
        return False

    def live(s, f, kind):
        """edges of f when its node has the given kind"""
        succ = [list(x) for x in f.succ]
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            c = static_expr(f, t.ops[0]) if t.op == "br" and t.ops else None
            if c and c[0] == "cmp" and c[1] in ("eq", "ne") and c[2][0] == "a" and is_null(c[3]):
                succ[b] = [t.x[1] if c[1] == "eq" else t.x[0]]
        if kind is None:
            return succ
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t.op == "switch" and s.subject(f, t.ops[0]):
                to = [c[1] for c in t.x[1:] if c[0] == kind]
                succ[b] = [to[0] if to else t.x[0]]
            elif t.op == "br" and t.ops:
                c = static_expr(f, t.ops[0])
                neg = False
                while c[0] == "not":
                    c, neg = c[1], not neg
                if c[0] == "cmp" and c[1] in ("eq", "ne") and c[3][0] == "c" and s.kindexpr(c[2]):
                    v = (c[3][1] == kind) == (c[1] == "eq")
                    succ[b] = [t.x[0] if v != neg else t.x[1]]
        return succ

    def kindexpr(s, e):
        e = unversion(strip_all(e))
        return e[0] == "ld" and e[1][0] == "fld" and e[1][3] == s.tag[0] and e[1][2] in s.tag[1:] and e[1][1][0] == "a"

    def starts(s, f, kind):
        """where the handling of one kind begins: the targets of the dispatch, else the entry"""
        out = []
        if kind is not None:
            for b, blk in enumerate(f.blocks):
                t = blk[-1]
                if t.op == "switch" and s.subject(f, t.ops[0]) and b in f.reach():
                    to = [c[1] for c in t.x[1:] if c[0] == kind]
                    if len(t.x) > 4:
                        out.append(to[0] if to else t.x[0])
        return out or [0]

    def returns(s, f, kind):
        """can the dispatcher return normally for the given kind"""
        succ = s.live(f, kind)
        seen, st = set(), s.starts(f, kind)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if any(i.op == "call" and s.dies(f, i) for i in f.blocks[b]):
                continue
            if f.blocks[b][-1].op == "ret":
                return f.blocks[b][-1]
            st += succ[b]
        return None

    def handles(s, f, kind):
        """is there a call or store made for this kind"""
        succ = s.live(f, kind)
        seen, st = set(), s.starts(f, kind)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if any(i.op == "call" and s.dies(f, i) for i in f.blocks[b]):
                continue
            for i in f.blocks[b]:
                if i.op == "call" and not (i.callee or "").startswith("llvm."):
                    return True
            st += succ[b]
        return False

    def dies(s, f, i, forced=None):
        """the call never returns, given the constants it passes"""
        if not i.callee:
            return False
        if i.callee in s.never:
            return True
        g = s.p.resolve(f.tu, i.callee)
        if g is None or not g.blocks:
            return False
        args = {n: fold(static_expr(f, o), {}) for n, o in enumerate(i.ops or [])} if forced is None else forced
        args = {n: v for n, v in args.items() if v is not None}
        if not args:
            return False
        k = ("dies", g, tuple(sorted(args.items())))
        if k not in s.memo:
            seen, st, ret = set(), [0], False
            while st and not ret:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if any(x.op == "call" and x.callee in s.never for x in g.blocks[b]):
                    continue
                x = g.blocks[b][-1]
                ret = x.op == "ret"
                v = fold(static_expr(g, x.ops[0]), args) if x.op == "br" and x.ops else None
                st += g.succ[b] if v is None else [x.x[0] if v else x.x[1]]
            s.memo[k] = not ret
        return s.memo[k]

    def null_call(s, f):
        """an indirect call of a table entry that is not preceded by a test of that entry"""
        for i in f.insts():
            if i.op == "call" and not i.callee:
                for b in f.dom[i.bb]:
                    t = f.blocks[b][-1]
                    if b != i.bb and t.op == "br" and t.ops:
                        x = static_expr(f, t.ops[0])
                        if any(y[0] == "g" for y in subexprs(x)):
                            return None
                for j in f.insts():
                    if j.op == "call" and j.callee and (j.bb == i.bb and j.i < i.i or j.bb != i.bb and j.bb in f.dom[i.bb]):
                        for n, o in enumerate(j.ops or []):
                            if any(y[0] == "g" and "table" in y[1] for y in subexprs(static_expr(f, o))) and s.dies(f, j, {n: 0}):
                                return None
                return i
        raise AnalysisError("no indirect call in %s" % f.name)

    def subject(s, f, op):
        return s.kindexpr(static_expr(f, op))

    def visit(s, f, keys, kind=None, depth=0):
        """(must, may, tight): on every path to a return a member is handed on or tested / some call hands it on /
        a call that hands it on in a loop is passed in every iteration"""
        k = (f, keys, kind)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = (False, False, False)
        succ = s.live(f, kind)
        may, stop, tight, here, tests = False, set(), False, set(), set()
        seen, st = set(), s.starts(f, kind)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += succ[b]
        for b in seen:
            for i in f.blocks[b]:
                if i.op != "call":
                    continue
                if s.dies(f, i):
                    stop.add(b)
                    continue
                if not i.callee:
                    if any(s.mention(f, o, keys) for o in i.ops[1:]):
                        may = True
                        stop.add(b)
                        here.add(b)
                    continue
                if i.callee.startswith("llvm."):
                    continue
                if s.family(f, i.callee) and any(s.mention(f, o, keys) for o in i.ops):
                    may = True
                    stop.add(b)
                    here.add(b)
                    continue
                g = s.p.resolve(f.tu, i.callee)
                if g is not None and g.file == s.file and g is not f and depth < 5 and i.callee not in s.roots and s.touches(g, keys):
                    mu, ma, ti = s.visit(g, keys, kind if s.passes_node(f, i) else None, depth + 1)
                    may = may or ma
                    if ma and ti:
                        here.add(b)
                    if mu:
                        stop.add(b)
            t = f.blocks[b][-1]
            if t.op in ("br", "switch") and t.ops and s.mention(f, t.ops[0], keys):
                n = s.nonnull(f, t, keys)
                if n is not None:
                    succ[b] = [n]
                else:
                    stop.add(b)
                    tests.add(b)
        for b in here:
            hs = [h for h in f.dom[b] if any(h in succ[x] and h in f.dom[x] for x in f.reach(b))] if b in f.dom else []
            hs = [h for h in hs if b == h or h in f.reach(b)]
            if not hs:
                tight = True
                continue
            h = max(hs, key=lambda x: len(f.dom[x]))
            body = {x for x in f.reach(h) if h in f.dom[x] and h in f.reach(x)}
            avoid = here | {x for x in tests if x != h}
            seen3, st, by = set(), [x for x in succ[h] if x in body and x != h], False
            while st and not by:
                x = st.pop()
                if x in seen3 or x in avoid or any(i.op == "call" and s.dies(f, i) for i in f.blocks[x]):
                    continue
                seen3.add(x)
                by = h in succ[x]
                st += [y for y in succ[x] if y in body]
            tight = tight or not by and s.from_first(f, h, body)
        must = True
        seen2, st = set(), s.starts(f, kind)
        while st and must:
            b = st.pop()
            if b in seen2:
                continue
            seen2.add(b)
            if b in stop:
                continue
            if f.blocks[b][-1].op == "ret":
                must = False
            st += succ[b]
        s.memo[k] = (must, may, tight)
        return s.memo[k]

    def nonnull(s, f, t, keys):
        """the branch taken when a tested pointer member is present"""
        if t.op != "br":
            return None
        c = static_expr(f, t.ops[0])
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        if c[0] != "cmp" or c[1] not in ("eq", "ne") or not is_null(c[3]):
            return None
        e = unversion(strip_all(c[2]))
        if e[0] == "ld" and e[1][0] == "fld" and (e[1][2], e[1][3]) in keys:
            return t.x[0] if (c[1] == "ne") != neg else t.x[1]
        return None

    def from_first(s, f, h, body):
        """the loop's counter starts at the first element and runs up to the end"""
        t = f.blocks[h][-1]
        if t.op != "br" or not t.ops:
            return True
        c = strip_all(static_expr(f, t.ops[0]))
        if c[0] != "cmp":
            return True
        for i in f.blocks[h]:
            if i.op == "phi" and strip_all(static_expr(f, i.id)) in (strip_all(c[2]), strip_all(c[3])):
                for pb, v in i.ops:
                    if pb not in body:
                        x = const(static_expr(f, v))
                        if x is not None and x != 0:
                            return False
                if c[1] in ("sle", "ule"):
                    return False
        return True

    def passes_node(s, f, i):
        return any(static_expr(f, o)[0] == "a" for o in i.ops)

    def touches(s, g, keys, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if g in seen:
            return False
        seen.add(g)
        for i in g.insts():
            if i.op == "gep" and any(x[0] == "f" and (x[1], x[2]) in keys for x in i.x):
                return True
        if depth < 3:
            for i in g.insts():
                if i.op == "call" and i.callee and i.callee not in s.roots:
                    h = s.p.resolve(g.tu, i.callee)
                    if h is not None and h.file == s.file and s.touches(h, keys, depth + 1, seen):
                        return True
        return False
