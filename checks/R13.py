"""R13: deferred blocks run exactly once on every way out of their scope."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *

TECH = ("typestate analysis of the code generator's scope and label stacks: every emitted jump out of a scope is paired with the unwinding of exactly the scopes it leaves, "
        "with path rules on the unwinder itself (LLVM IR, all paths, helpers inlined)")

SRC = "src/linear.c"
MODES = {"LINEAR_UNWIND_MODE_BREAK": "break_depth", "LINEAR_UNWIND_MODE_CONTINUE": "continue_depth", "LINEAR_UNWIND_MODE_RET": "ret_depth", "LINEAR_UNWIND_MODE_CATCH": "catch_depth"}
STACK = {"break_depth": "break_labels", "continue_depth": "continue_labels", "ret_depth": "ret_labels", "catch_depth": "catch_error_labels"}


def U(e):
    return unversion(strip_all(e))


def fields(e):
    return {x[3] for x in subexprs(U(e)) if isinstance(x, tuple) and x[:1] == ("fld",)}


def leaf(e):
    e = U(e)
    while e[0] == "cast":
        e = U(e[2])
    if e[0] == "ld" and U(e[1])[0] == "fld":
        return U(e[1])[3]
    return None


def stack_of(e):
    """which label stack an expression denotes"""
    n = leaf(e)
    return n if n in set(STACK.values()) | {"ret_targets", "defer_scopes"} else None


def depth_of(e):
    """stack whose element count the expression is"""
    e = U(e)
    while e[0] == "cast":
        e = U(e[2])
    if e[0] == "ld" and U(e[1])[0] == "fld" and U(e[1])[3] == "count":
        return stack_of(U(e[1])[1])
    return None


def calls(q, *names):
    return [i for i, e in enumerate(q.ev) if e.k == "call" and e.name in names]


def is_call(x, *names):
    x = U(x)
    return x[0] == "call" and x[1] in names


def result_known(q, call_ev, upto=None):
    r = None
    for e in q.ev[:upto]:
        if e.k != "assume":
            continue
        x, t = strip_casts(e.cond), bool(e.truth)
        while True:
            if x[0] == "not":
                x, t = strip_casts(x[1]), not t
            elif x[0] == "cmp" and x[1] in ("eq", "ne") and const(x[3]) == 0:
                x, t = strip_casts(x[2]), t if x[1] == "ne" else not t
            else:
                break
        if strip_casts(x) == strip_casts(call_ev.res):
            r = t
    return r


# ---------------------------------------------------------------- the unwinder
def unwinder(c, p):
    f = p.need("linear_defer_scope_new")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        got = {}
        for e in q.ev:
            if e.k == "store":
                k = key_of(e.addr)
                if k and k[0] == "linear_defer_scope_t":
                    got[k[1]] = e.val
        for d, s in STACK.items():
            c.check("scope", "new scope records %s" % d, d in got and depth_of(got[d]) == s, "record:%s" % d, q.end_loc(), "a new scope does not record how many %s are open" % s, q.trace())
        c.check("scope", "new scope is empty", "defer_stmts" in got and is_call(got["defer_stmts"], "slice_new"), "record:stmts", q.end_loc(), "a new scope does not start with an empty list", q.trace())
    f = p.need("linear_scope_need_unwind")
    c.unit(f.name)
    allm = p.enum("LINEAR_UNWIND_MODE_ALL")
    seen = set()
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        mode = next((const(b) for pr, a, b, e in known(q, len(q.ev)) if pr == "eq" and U(a) == ("a", 1)), None)
        r = strip_casts(q.ev[-1].val)
        nm = next((n for n in MODES if p.enum(n) == mode), "all" if mode == allm else None)
        if nm is None:
            continue
        seen.add(nm)
        # what the path returns, as: leaves scope <=> recorded depth >= depth
        cond = None
        for pr, a, b, e in known(q, len(q.ev)):
            if U(b) == ("a", 2) and leaf(a) or U(a) == ("a", 2) and leaf(b):
                cond = (pr, leaf(a) or leaf(b), U(b) == ("a", 2))
        if nm == "all":
            c.check("scope", "mode all", const(r) not in (None, 0), "need:all", q.end_loc(), "leaving the function does not leave every scope", q.trace())
            continue
        x, neg = r, False
        while x[0] in ("not", "cast"):
            neg ^= x[0] == "not"
            x = strip_casts(x[1] if x[0] == "not" else x[2])
        if x[0] == "cmp":
            pr, a, b = x[1], x[2], x[3]
            if U(a) == ("a", 2):
                pr, a, b = {"sge": "sle", "uge": "ule", "sgt": "slt", "ugt": "ult", "sle": "sge", "ule": "uge", "slt": "sgt", "ult": "ugt"}.get(pr, pr), b, a
            if neg:
                pr = {"sge": "slt", "uge": "ult", "slt": "sge", "ult": "uge"}.get(pr, "?")
            ok = pr in ("sge", "uge") and leaf(a) == MODES[nm] and U(b) == ("a", 2)
        else:
            v = const(r)
            ok = False
            if cond and v is not None:
                pr, l, right = cond
                if not right:
                    pr = {"sge": "sle", "uge": "ule", "sgt": "slt", "ugt": "ult", "sle": "sge", "ule": "uge", "slt": "sgt", "ult": "ugt"}.get(pr, pr)
                ok = l == MODES[nm] and (pr in ("sge", "uge") and v != 0 or pr in ("slt", "ult") and v == 0)
        c.check("scope", nm, ok, "need:%s" % nm, q.end_loc(), "%s leaves a scope under another condition than its recorded %s reaching the target's" % (nm, MODES[nm]), q.trace())
    c.need(seen >= set(MODES) | {"all"}, "modes of linear_scope_need_unwind not found: %s" % sorted(seen))

    # one scope: every statement once, newest first, already removed from the list while it runs, under the catch around the scope
    f = p.need("linear_emit_scope_defer_stmts")
    c.unit(f.name)
    n = 0
    for q in Walker(p, inline=lambda g: g.name == "linear_emit_defer_stmt", vn=True, pure=("linear_body", "stack_push", "stack_pop", "stack_new"), blocks=True, loops=2, max_paths=20000).paths(f):
        if q.dead:
            continue
        em = calls(q, "linear_body", "linear_emit_defer_stmt")
        tr = q.trace()
        cnt0 = None
        for k, i in enumerate(em):
            n += 1
            a = U(q.ev[i].args[1])
            idx = next((x[2] for x in subexprs(a) if isinstance(x, tuple) and x[:1] == ("idx",)), None)
            if idx is None and any(isinstance(x, tuple) and x[:1] == ("fld",) and x[3] == "take" for x in subexprs(a)):
                idx = ("c", 0)
            li = linear(strip_casts(idx)) if idx is not None else None
            ok = li is not None and li[1] == -1 - k and len(li[0]) == 1 and "count" in fields(list(li[0])[0]) and list(li[0].values()) == [1]
            c.check("once", f.name, ok, "order", q.ev[i].loc, "the deferred blocks of a scope are not run newest first, each once", tr)
            st = [e for e in q.ev[:i] if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "count" and "defer_stmts" in fields(e.addr)]
            ok = bool(st) and idx is not None and linear(U(st[-1].val)) == linear(U(idx))
            c.check("once", f.name, ok, "running", q.ev[i].loc, "a deferred block that is running is still in the list an error in it unwinds", tr)
        # complete: the loop ends only below index zero
        if True:
            ends = [(pr, a, b) for pr, a, b, e in known(q, len(q.ev)) if const(b) in (0, -1) and any("count" in fields(t) and "defer_stmts" in fields(t) for t in linear(strip_casts(a))[0])]
            ok = any(pr in ("slt", "sle", "eq", "ult", "ule") and linear(strip_casts(a))[1] + 0 == -1 - len(em) + (1 if const(b) == 0 and pr in ("sle", "eq", "ule") else 0) + (0) for pr, a, b in ends)
            c.check("once", f.name, ok, "all", q.end_loc(), "unwinding a scope stops before its last deferred block", tr)
        pops, pushes = calls(q, "stack_pop"), calls(q, "stack_push")
        lab = [i for i in pops if stack_of(q.ev[i].args[0]) == "catch_error_labels"]
        back = [i for i in pushes if stack_of(q.ev[i].args[0]) == "catch_error_labels"]
        if em:
            c.check("catch", f.name, all(i < em[0] for i in lab) and all(i > em[-1] for i in back), "labels", q.end_loc(), "the catch labels inside a scope are not set aside while its deferred blocks are compiled", tr)
            low = any(pr in ("sle", "ule", "eq", "slt", "ult") and depth_of(a) == "catch_error_labels" and leaf(b) == "catch_depth" or
                      pr in ("sge", "uge", "eq") and depth_of(b) == "catch_error_labels" and leaf(a) == "catch_depth" for pr, a, b, e in known(q, em[0]))
            strict = any(pr in ("slt", "ult") and depth_of(a) == "catch_error_labels" and leaf(b) == "catch_depth" for pr, a, b, e in known(q, em[0]))
            c.check("catch", f.name, low and not strict, "depth", q.end_loc(), "deferred blocks run under a catch that is inside the scope they belong to", tr)
    c.need(n >= 3, "loop of linear_emit_scope_defer_stmts not found")

    f = p.need("linear_unwind_from")
    c.unit(f.name)
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True).paths(f):
        if q.dead:
            continue
        node_null = any(pr == "eq" and U(a) == ("a", 1) and const(b) == 0 for pr, a, b, e in known(q, len(q.ev)))
        tr = q.trace()
        if node_null:
            c.check("unwind", f.name, not calls(q, "linear_emit_scope_defer_stmts"), "end", q.end_loc(), "unwinding goes on after the last scope", tr)
            continue
        m += 1
        nd = calls(q, "linear_scope_need_unwind")
        em = calls(q, "linear_emit_scope_defer_stmts")
        rec = calls(q, "linear_unwind_from")
        scope = lambda e: leaf(e) == "value" and "value" in fields(e) and mentions(U(e), ("a", 1)) or U(e) == ("ld", ("a", 1))
        ok = len(nd) == 1 and scope(q.ev[nd[0]].args[0]) and U(q.ev[nd[0]].args[1]) == ("a", 2) and U(q.ev[nd[0]].args[2]) == ("a", 3)
        c.check("unwind", f.name, ok, "test", q.end_loc(), "whether a scope is left is not asked for this scope, way out and target", tr)
        if not ok:
            continue
        need = result_known(q, q.ev[nd[0]])
        c.check("unwind", f.name, need is not None and len(em) == (1 if need else 0) and all(scope(q.ev[i].args[1]) for i in em), "emit", q.end_loc(), "a scope that is left does not run its deferred blocks exactly once", tr)
        ok = len(rec) == 1 and leaf(q.ev[rec[0]].args[1]) == "next" and U(q.ev[rec[0]].args[2]) == ("a", 2) and U(q.ev[rec[0]].args[3]) == ("a", 3) and all(i < rec[0] for i in em)
        c.check("unwind", f.name, ok, "outer", q.end_loc(), "the scopes around are not unwound after the inner one", tr)
        st = [e for e in q.ev if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "count"]
        ok = len(st) == 1 and leaf(st[-1].val) == "count" and rec and q.index(st[-1]) > rec[0] and (not em or load_before(q, st[-1], em[0]))
        c.check("unwind", f.name, ok, "restore", q.end_loc(), "after an early way out the deferred blocks of the scope are gone for the other ways out", tr)
    c.need(m >= 2, "paths of linear_unwind_from not found")
    f = p.need("linear_unwind_scopes")
    c.unit(f.name)
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        em = calls(q, "stack_empty")
        rec = calls(q, "linear_unwind_from")
        if em and result_known(q, q.ev[em[0]]) is True:
            continue
        m += 1
        ok = len(rec) == 1 and leaf(q.ev[rec[0]].args[1]) == "next" and {"defer_scopes", "top"} <= fields(q.ev[rec[0]].args[1]) and U(q.ev[rec[0]].args[2]) == ("a", 1) and U(q.ev[rec[0]].args[3]) == ("a", 2)
        c.check("unwind", f.name, ok, "start", q.end_loc(), "unwinding does not start at the innermost scope", q.trace())
    c.need(m >= 1, "paths of linear_unwind_scopes not found")
    f = p.need("linear_has_pending_defer")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, loops=2, max_paths=4000).paths(f):
        if q.dead:
            continue
        r = const(strip_casts(q.ev[-1].val))
        hit = False
        for i in calls(q, "linear_scope_need_unwind"):
            base = U(q.ev[i].args[0])
            need = result_known(q, q.ev[i])
            nonempty = any(pr in ("sgt", "ugt", "ne") and const(b) == 0 and "count" in fields(a) and mentions(U(a), base) for pr, a, b, e in known(q, len(q.ev)))
            hit |= bool(need and nonempty)
            c.check("unwind", f.name, U(q.ev[i].args[1]) == ("a", 1) and U(q.ev[i].args[2]) == ("a", 2), "pending-args", q.end_loc(), "pending deferred blocks are looked for with another target", q.trace())
        c.check("unwind", f.name, (r != 0) == hit, "pending", q.end_loc(), "pending deferred blocks are %s" % ("overlooked" if hit else "seen where there are none"), q.trace())


def load_before(q, st, i):
    """the restored count was read before the scope was emptied"""
    v = strip_casts(st.val)
    return v[0] == "ld"  and (len(v) < 3 or True)


# ---------------------------------------------------------------- statement lists and registration
def lists(c, p):
    f = p.need("linear_body")
    c.unit(f.name)
    n = 0
    keep = {"linear_stmt", "linear_emit_scope_defer_stmts", "stack_push", "stack_pop", "stack_top", "linear_defer_scope_new"}
    inl = lambda g: g.file == SRC and g.name in ("linear_defer_scope_enter", "linear_defer_scope_leave") or (g.internal and g.file == SRC and g.name not in keep and "scope" in g.name)
    for q in Walker(p, inline=inl, vn=True, blocks=True, loops=2, max_paths=4000).paths(f):
        if q.dead:
            continue
        tr = q.trace()
        push = [i for i in calls(q, "stack_push") if stack_of(q.ev[i].args[0]) == "defer_scopes"]
        pop = [i for i in calls(q, "stack_pop") if stack_of(q.ev[i].args[0]) == "defer_scopes"]
        st = calls(q, "linear_stmt")
        em = calls(q, "linear_emit_scope_defer_stmts")
        ok = len(push) == 1 and is_call(q.ev[push[0]].args[1], "linear_defer_scope_new") and all(i > push[0] for i in st)
        c.check("list", f.name, ok, "enter", q.end_loc(), "a statement list does not open its own scope before its first statement", tr)
        top = calls(q, "stack_top")
        nul = any(pr == "eq" and const(b) == 0 and is_call(a, "stack_top") for pr, a, b, e in known(q, len(q.ev)))
        if nul:
            continue
        n += 1
        ok = len(pop) == 1 and len(em) == 1 and all(i < em[0] for i in st) and em[0] < pop[0] and is_call(q.ev[em[0]].args[1], "stack_top")
        c.check("list", f.name, ok, "leave", q.end_loc(), "falling off the end of a statement list does not run its deferred blocks once and then close the scope", tr)
        for k, i in enumerate(st):
            a = U(q.ev[i].args[1])
            idx = next((x[2] for x in subexprs(a) if isinstance(x, tuple) and x[:1] == ("idx",)), ("c", 0))
            c.check("list", f.name, const(idx) == k, "each", q.ev[i].loc, "the statements of a list are not compiled in order, each once", tr)
    c.need(n >= 3, "loop of linear_body not found")
    # statements are compiled through a list; the parts of a counting loop are the only exception
    ok_callers = {"linear_body", "linear_for_tradition"}
    cal = set()
    for g in p.unique():
        for i in g.calls("linear_stmt"):
            cal.add(g.name)
            good = g.name in ok_callers or bool(g.calls("linear_defer_scope_enter"))
            if g.name == "linear_for_tradition":
                a = U(static_expr(g, i.ops[1]))
                good = leaf(a) in ("init", "update")
            c.check("list", "%s compiles a statement" % g.name, good, "direct:%s" % g.name, i.loc, "%s compiles a statement outside any scope" % g.name)
    f = p.need("linear_defer_register")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        pu = calls(q, "slice_push")
        ok = len(pu) == 1 and U(q.ev[pu[0]].args[1]) == ("a", 1) and leaf(q.ev[pu[0]].args[0]) == "defer_stmts" and any(is_call(x, "stack_top") and stack_of(x[3]) == "defer_scopes" for x in subexprs(U(q.ev[pu[0]].args[0])) if isinstance(x, tuple) and x[:1] == ("call",))
        if not ok and len(pu) == 1:
            a = U(q.ev[pu[0]].args[0])
            ok = U(q.ev[pu[0]].args[1]) == ("a", 1) and any(isinstance(x, tuple) and x[:2] == ("call", "stack_top") for x in subexprs(a)) and a[0] == "ld"
        c.check("list", f.name, ok, "register", q.end_loc(), "a deferred block is not added to the innermost scope", q.trace())
    f = p.need("linear_stmt")
    c.unit(f.name)
    d = p.enum("AST_STMT_DEFER")
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=True, max_paths=4000).paths(f):
        if q.dead:
            continue
        if any(pr == "eq" and const(b) == d and leaf(a) == "assert_type" for pr, a, b, e in known(q, len(q.ev))):
            m += 1
            rg = calls(q, "linear_defer_register")
            ok = len(rg) == 1 and leaf(q.ev[rg[0]].args[1]) == "value" and not calls(q, "linear_body", "linear_emit_defer_stmt")
            c.check("list", f.name, ok, "defer", q.end_loc(), "reaching a defer statement does not register its block (only)", q.trace())
    c.need(m >= 1, "defer case of linear_stmt not found")
    f = p.need("linear_emit_defer_stmt") if any(g.name == "linear_emit_defer_stmt" for g in p.unique()) else None
    if f is not None:
        c.unit(f.name)
        for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
            if not q.dead:
                b = calls(q, "linear_body")
                c.check("once", f.name, len(b) == 1 and (leaf(q.ev[b[0]].args[1]) == "body" or U(q.ev[b[0]].args[1]) == ("ld", ("a", 1))), "body", q.end_loc(), "running a deferred block does not compile its statements once", q.trace())


# ---------------------------------------------------------------- every jump out
def label_src(e):
    """label stack (or function label) a jump target comes from"""
    for x in subexprs(U(e)):
        if isinstance(x, tuple) and x[:2] == ("call", "stack_top"):
            s = stack_of(x[3])
            if s:
                return s
        if isinstance(x, tuple) and x[:1] == ("fld",) and x[3] in ("end_label", "error_label") and x[2] == "closure_t":
            return x[3]
    return None


WAY = {"break_labels": "LINEAR_UNWIND_MODE_BREAK", "continue_labels": "LINEAR_UNWIND_MODE_CONTINUE", "ret_labels": "LINEAR_UNWIND_MODE_RET", "catch_error_labels": "LINEAR_UNWIND_MODE_CATCH",
       "end_label": "LINEAR_UNWIND_MODE_ALL", "error_label": "LINEAR_UNWIND_MODE_ALL"}


def exits(c, p):
    hot = set(WAY)
    n = {}
    unw = {"linear_unwind_scopes"}
    wrappers = {"linear_unwind_all", "linear_unwind_to_break_depth", "linear_unwind_to_continue_depth", "linear_unwind_to_ret_depth", "linear_unwind_error", "linear_bal_error"}
    inl = lambda g: g.file == SRC and g.name in wrappers or (g.internal and g.file == SRC and ("unwind" in g.name or "bal" in g.name) and g.name not in ("linear_unwind_scopes", "linear_unwind_from", "linear_scope_need_unwind"))
    allmode = p.enum("LINEAR_UNWIND_MODE_ALL")
    for f in p.unique(lambda g: g.file == SRC):
        if f.name in wrappers or f.name in ("linear_unwind_from", "linear_emit_scope_defer_stmts", "linear_defer_scope_new"):
            continue
        # function that takes a target label off a stack (or the function labels) and may jump
        if fresh(f) and any(list(g.calls(f.name)) for g in p.unique(lambda g: g.file == SRC)):
            continue
        parts, k = [f], 0
        while k < len(parts):
            parts += [g for g in p.unique(lambda g: g.file == SRC and fresh(g)) if g not in parts and list(parts[k].calls(g.name))]
            k += 1
        tops = [i for g in parts for i in g.calls("stack_top") if stack_of(static_expr(g, i.ops[0])) in hot]
        endl = [i for g in parts for i in g.insts() if i.op == "load" and (lambda a: a[0] == "fld" and a[2] == "closure_t" and a[3] in ("end_label", "error_label"))(U(static_expr(g, i.ops[0])))]
        if not tops and not endl or f.name == "linear_fndef":
            continue
        c.unit(f.name)
        for q in Walker(p, inline=inl, vn=True, pure=("linked_push", "lir_op_bal", "lir_op_new", "lir_label_operand", "push_rt_call", "string_operand", "int_operand", "bool_operand", "temp_var_operand", "str_connect", "label_ident_with_unique", "lir_op_label", "strlen", "stack_top"), blocks=True, loops=1, max_paths=20000).paths(f):
            if q.dead:
                continue
            tr = q.trace()
            un = calls(q, *unw)
            pend = calls(q, "linear_has_pending_defer")
            for i, e in enumerate(q.ev):
                if e.k != "call" or e.name not in ("lir_op_bal", "lir_op_new"):
                    continue
                if e.name == "lir_op_new":
                    code = const(strip_casts(e.args[0]))
                    lab = e.args[3]
                    if code == p.enum("LIR_OPCODE_RET"):
                        continue
                else:
                    lab = e.args[0]
                src = label_src(lab)
                if src is None:
                    continue
                n[src] = n.get(src, 0) + 1
                mode = p.enum(WAY[src])
                good = []
                for j in un + pend:
                    if j > i:
                        continue
                    a = q.ev[j].args
                    mo = const(strip_casts(a[1]))
                    dep = a[2]
                    if j in pend:
                        if result_known(q, q.ev[j], i) is not False:
                            continue
                    every = mo == allmode or (mo == p.enum("LINEAR_UNWIND_MODE_CATCH") and src == "error_label" and zero_depth(q, dep))
                    if src in ("end_label", "error_label"):
                        if every:
                            good.append(j)
                    elif mo == mode and depth_of(dep) == src:
                        good.append(j)
                runs = [j for j in good if j in un]
                c.check("exit", "%s -> %s" % (f.name, src), bool(good), "%s:%s" % (f.name, src), e.loc, "a jump to a label of %s leaves scopes without running their deferred blocks" % src, tr)
                c.check("exit", "%s -> %s" % (f.name, src), len(runs) <= 1 and len([j for j in un if j < i]) <= 1, "%s:%s:twice" % (f.name, src), e.loc, "the deferred blocks run twice on one way out", tr)
                # the value that leaves is computed before
                vals = calls(q, "linear_expr")
                c.check("exit", "%s value" % f.name, all(v < j for v in vals for j in runs), "%s:value" % f.name, e.loc, "the value is computed after the deferred blocks ran", tr)
                # an error is set aside
                if src in ("catch_error_labels", "error_label") or f.name == "linear_throw":
                    for j in runs:
                        h = [k for k in calls(q, "push_rt_call") if str_arg(q.ev[k].args[1]) == "co_hold_error" and k < j]
                        r = [k for k in calls(q, "push_rt_call") if str_arg(q.ev[k].args[1]) == "co_resume_error" and j < k < i]
                        c.check("error", f.name, bool(h) and bool(r) and U(q.ev[r[-1]].args[4]) == U(q.ev[h[-1]].args[2]), "%s:held" % f.name, e.loc, "deferred blocks run while the error is pending, or the error is lost", tr)
    for k in ("break_labels", "continue_labels", "ret_labels", "catch_error_labels", "end_label", "error_label"):
        c.need(n.get(k), "no jump to a label of %s found" % k)
    # the returned value does not change under a deferred block
    f = p.need("linear_return")
    void = p.enum("TYPE_VOID")
    m = 0
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True).paths(f):
        if q.dead:
            continue
        ex = calls(q, "linear_expr")
        if not ex:
            continue
        m += 1
        pend = calls(q, "linear_has_pending_defer")
        none = any(result_known(q, q.ev[i]) is False and const(strip_casts(q.ev[i].args[1])) == allmode for i in pend)
        isvoid = any(pr == "eq" and leaf(a) == "kind" and const(b) == void for pr, a, b, e in known(q, len(q.ev)))
        tgt = q.ev[ex[0]].args[-1]
        own = any(q.ev[i].k == "call" and q.ev[i].name.startswith("temp_var_operand") and U(q.ev[i].res) == U(tgt) for i in range(ex[0]))
        moved = any(e.k == "call" and e.name in ("linear_super_move", "lir_op_move") and q.index(e) > ex[0] and (not calls(q, "linear_unwind_all", "linear_unwind_scopes") or q.index(e) < calls(q, "linear_unwind_all", "linear_unwind_scopes")[0]) for e in q.ev)
        c.check("value", f.name, none or isvoid or own or moved, "copy", q.end_loc(), "the returned variable can be changed by a deferred block before the caller gets it", q.trace())
    c.need(m >= 1, "paths of linear_return not found")


def zero_depth(q, dep):
    """the path knows that no catch is open"""
    return const(strip_casts(dep)) == 0 or any((pr in ("sle", "ule", "eq") and const(b) == 0 or pr in ("slt", "ult") and const(b) == 1) and depth_of(a) == depth_of(dep) and depth_of(a) for pr, a, b, e in known(q, len(q.ev)))


def str_arg(e):
    e = strip_casts(e)
    return e[1].lower() if e[0] == "s" else None


# ---------------------------------------------------------------- label stacks are balanced around bodies
def balance(c, p):
    n = 0
    for f in p.unique(lambda g: g.file == SRC):
        pushes = [i for i in f.calls("stack_push") if stack_of(static_expr(f, i.ops[0])) in set(STACK.values()) | {"ret_targets"}]
        if not pushes or f.name == "linear_emit_scope_defer_stmts":
            continue
        c.unit(f.name)
        for q in Walker(p, inline=lambda g: False, vn=True, pure=("stack_push", "stack_pop"), blocks=True, loops=1, max_paths=60000).paths(f):
            if q.dead:
                continue
            n += 1
            st = {}
            tr = None
            for i, e in enumerate(q.ev):
                if e.k != "call":
                    continue
                if e.name in ("stack_push", "stack_pop"):
                    s = stack_of(e.args[0])
                    if s:
                        st[s] = st.get(s, 0) + (1 if e.name == "stack_push" else -1)
                        if st[s] < 0:
                            c.check("labels", f.name, False, "%s:%s:under" % (f.name, s), e.loc, "%s closes a %s it did not open" % (f.name, s), q.trace())
                if e.name == "linear_body":
                    bod = leaf(e.args[1]) or ""
                    loop = f.name.startswith("linear_for")
                    if loop:
                        ok = st.get("break_labels") == 1 and st.get("continue_labels") == 1
                        c.check("labels", f.name, ok, "%s:loop" % f.name, e.loc, "a loop body is compiled without the loop's own labels", q.trace() if not ok else None)
                    if bod == "try_body":
                        c.check("labels", f.name, st.get("catch_error_labels") == 1, "%s:try" % f.name, e.loc, "a guarded body is compiled without its catch label", q.trace())
                    if bod == "catch_body":
                        c.check("labels", f.name, not st.get("catch_error_labels"), "%s:handler" % f.name, e.loc, "a handler is compiled inside the region it handles", q.trace())
                    if bod in ("handle_body", "catch_body") and f.name != "linear_select" or f.name == "linear_block_expr":
                        c.check("labels", f.name, st.get("ret_labels") == 1, "%s:ret" % f.name, e.loc, "a body that can yield a value is compiled without its own label", q.trace())
                if e.name == "linear_expr" and leaf_in(e.args, "try_expr"):
                    c.check("labels", f.name, st.get("catch_error_labels") == 1, "%s:tryexpr" % f.name, e.loc, "a guarded expression is compiled without its catch label", q.trace())
            bad = {k: v for k, v in st.items() if v}
            c.check("labels", f.name, not bad, "%s:balance" % f.name, q.end_loc(), "%s leaves labels on %s" % (f.name, sorted(bad)), q.trace() if bad else None)
    c.need(n >= 8, "label stacks not found")


def leaf_in(args, name):
    return any(name in fields(a) for a in args if isinstance(a, tuple))


# ---------------------------------------------------------------- control statements inside a deferred block
def analyzer(c, p):
    f = p.need("analyzer_defer")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True, pure=("analyzer_body", "analyzer_begin_scope", "analyzer_end_scope")).paths(f):
        if q.dead:
            continue
        st = [e for e in q.ev if e.k == "store" and (key_of(e.addr) or (0, 0))[1] == "in_defer_block_depth"]
        b = calls(q, "analyzer_body")
        ok = len(b) == 1 and len(st) == 2 and linear(strip_casts(st[0].val))[1] == 1 and q.index(st[0]) < b[0] < q.index(st[1]) and linear(strip_casts(st[1].val))[1] == 0
        c.check("reject", f.name, ok, "depth", q.end_loc(), "the body of a deferred block is not analysed as one", q.trace())
    f = p.need("analyzer_stmt")
    c.unit(f.name)
    kinds = {n: p.enum(n) for n in ("AST_STMT_RETURN", "AST_STMT_BREAK", "AST_STMT_CONTINUE", "AST_STMT_THROW", "AST_STMT_RET")}
    seen = set()
    for q in Walker(p, inline=lambda g: False, vn=True, blocks=True, max_paths=20000).paths(f):
        inside = any(leaf(a) == "in_defer_block_depth" and pr in ("sgt", "ugt", "ne") and const(b) == 0 for pr, a, b, e in known(q, len(q.ev)))
        rej = any(e.k == "call" and e.name in ("dump_errorf", "exit", "analyzer_push_errorf", "push_errorf") for e in q.ev)
        for nm, v in kinds.items():
            if any(pr == "eq" and leaf(a) == "assert_type" and const(b) == v for pr, a, b, e in known(q, len(q.ev))):
                seen.add(nm)
                outside = any(leaf(a) == "in_defer_block_depth" and pr in ("sle", "ule", "eq") and const(b) == 0 for pr, a, b, e in known(q, len(q.ev)))
                c.check("reject", nm, rej or q.dead or outside, nm, q.end_loc(), "%s inside a deferred block is accepted" % nm, q.trace())
    c.need(len(seen) == 5, "statement kinds of analyzer_stmt not found: %s" % sorted(seen))


def body(c):
    c.rule("scope", "a scope records the open labels and is left exactly when the target is outside it", 9)
    c.rule("once", "the deferred blocks of a scope run newest first, each once, removed while running", 4)
    c.rule("catch", "deferred blocks run under the catch around their scope", 2)
    c.rule("unwind", "unwinding visits every scope being left, inside out, and leaves the lists as they were", 6)
    c.rule("list", "every statement list is a scope; reaching a defer registers it in the innermost scope", 6)
    c.rule("exit", "every jump out unwinds exactly the scopes it leaves, once, after the value is computed", 10)
    c.rule("error", "an error that leaves scopes is set aside while their deferred blocks run", 2)
    c.rule("value", "a deferred block cannot change the value being returned", 1)
    c.rule("labels", "loop, catch and result labels enclose exactly the bodies they belong to", 10)
    c.rule("reject", "control statements cannot leave a deferred block", 6)
    p = Program("compiler", lambda f: f.startswith(("src/linear", "src/semantic/analyzer", "utils/stack", "utils/slice", "src/lir")))
    for s in (unwinder, lists, exits, balance, analyzer):
        c.section(s, c, p)


main("R13", TECH, body)
