"""R05: reference stores into heap memory are visible to a running collection."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
from lir import *
from kinds import Kinds

TECH = ("path-sensitive store analysis (LLVM IR): order of shading and store on every path of the barrier primitives; every non-null store into a reference slot of a collected structure and every "
        "element copy must go through the barrier; emitted-code analysis of every assignment form for every single-word reference kind")

# reference slots of collected run-time structures
SLOTS = {("n_vec_t", "data"), ("n_map_t", "hash_table"), ("n_map_t", "key_data"), ("n_map_t", "value_data"), ("n_set_t", "hash_table"), ("n_set_t", "key_data"),
         ("linkco_t", "next"), ("linkco_t", "prev"), ("waitq_t", "head"), ("waitq_t", "rear"), ("rt_linkco_list_t", "head"), ("rt_linkco_list_t", "rear"), ("n_fn_t", "envs")}
ELEMS = {("n_map_t", "key_data"), ("n_map_t", "value_data"), ("n_set_t", "key_data")}
HELD = {("coroutine_t", "error")}  # a compound value that holds references
ALLOC = ("rti_gc_malloc", "gc_malloc", "gc_malloc_size", "rti_array_new", "rti_gc_malloc_with_locker", "rti_try_gc_malloc")
REFS = ("TYPE_REF", "TYPE_PTR", "TYPE_CHAN", "TYPE_FN", "TYPE_COROUTINE_T")
PRIM = ("rti_write_barrier_ptr", "write_barrier", "rti_write_barrier_rtype")


def U(e):
    return unversion(strip_all(e))


def inside(e, base):
    """an address e lies in the object at base"""
    e = U(e)
    while True:
        if e == base:
            return True
        if e[0] in ("fld", "idx"):
            e = U(e[1])
        elif e[0] == "bin" and e[1] in ("add", "sub"):
            e = U(e[2])
        else:
            return False


def slot_key(e):
    e = U(e)
    return (e[2], e[3]) if e[0] == "fld" else None


# ---------------------------------------------------------------- primitives
def active(q, upto=None):
    """whether marking is known to be active / inactive on the path: True, False or None"""
    r = None
    for e in q.ev[:upto]:
        if e.k != "assume":
            continue
        for x, t in ((e.cond, e.truth),):
            x = strip_casts(x)
            while True:
                if x[0] == "not":
                    x, t = strip_casts(x[1]), not t
                elif x[0] == "cmp" and x[1] in ("eq", "ne") and const(x[3]) == 0:
                    t = t if x[1] == "ne" else not t
                    x = strip_casts(x[2])
                else:
                    break
            if x[0] == "call" and x[1] == "gc_barrier_get":
                r = bool(t)
            elif x[0] == "ld" and U(x[1]) == ("g", "gc_barrier"):
                r = bool(t)
    return r


def no_span(q, v):
    """the path found that v is null or no collected object"""
    v = U(v)
    for pred, a, b, e in known(q, len(q.ev)):
        if pred == "eq" and is_null(b):
            a = U(a)
            if a == v or (a[0] == "call" and a[1] in ("span_of", "in_heap") and U(a[3]) == v):
                return True
    return False


def shaded(q, v, upto, since=0):
    v = U(v)
    return any(e.k == "call" and e.name == "shade_obj_grey" and U(e.args[0]) == v for e in q.ev[since:upto])


def primitives(c, p):
    keep = ("shade_obj_grey", "gc_barrier_get", "coroutine_get", "mark_ptr_black", "span_of", "in_heap", "processor_get")
    f = p.need("rti_write_barrier_ptr")
    c.unit(f.name)
    slot, new = ("a", 0), ("a", 1)
    n = 0
    for q in Walker(p, inline=lambda g: g.name not in keep, vn=True, blocks=True, loops=1, max_paths=20000).paths(f):
        if q.dead:
            continue
        n += 1
        tr = q.trace()
        st = [i for i, e in enumerate(q.ev) if e.k == "store" and U(e.addr) == slot]
        if not c.check("store", f.name, len(st) == 1 and U(q.ev[st[0]].val) == new, "stores", q.end_loc(), "a path of the barrier stores %s" % ([show(q.ev[i].val) for i in st] or "nothing"), tr):
            continue
        a = active(q, st[0])
        if a is False:
            continue
        old = ("ld", slot)
        sh = any(e.k == "call" and e.name == "shade_obj_grey" and e.args[0] is not None and U(e.args[0])[:2] == ("ld", slot) for e in q.ev[:st[0]])
        none = any(pred == "eq" and is_null(b) and (U(x)[:2] == old or (U(x)[0] == "call" and U(x)[1] in ("span_of", "in_heap") and U(U(x)[3])[:2] == old)) for pred, x, b, e in known(q, st[0]))
        c.check("overwritten", f.name, sh or none, "old", q.end_loc(), "while marking is active the overwritten reference is not reported before it is lost", tr)
        # the stored object: reported unless it is null or this coroutine's stack is already scanned
        done = any(black(pred, x, b) for pred, x, b, e in known(q, st[0]))
        null = any(pred == "eq" and is_null(b) and U(x) == new for pred, x, b, e in known(q, st[0]))
        c.check("stored", f.name, shaded(q, new, st[0]) or null or done, "new", q.end_loc(), "while marking is active the stored reference is not reported although the stack may still be unscanned", tr)
        # a shaded object is not made black afterwards: its fields would stay unscanned
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "mark_ptr_black" and U(e.args[0]) == new:
                late = any(x.k == "call" and x.name == "shade_obj_grey" and U(x.args[0]) == new for x in q.ev[:i])
                c.check("stored", f.name, not late, "black-last", e.loc, "the stored object is marked scanned after it was queued", tr)
    c.need(n >= 3, "paths of rti_write_barrier_ptr not found")

    f = p.need("write_barrier")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
        if q.dead:
            continue
        cs = [e for e in q.ev if e.k == "call" and e.name == "rti_write_barrier_ptr"]
        c.check("store", f.name, len(cs) == 1 and U(cs[0].args[0]) == ("a", 0) and U(cs[0].args[1]) == ("a", 1), "pass", q.end_loc(), "compiled code's barrier does not pass slot and value on", q.trace())

    f = p.need("rti_write_barrier_rtype")
    c.unit(f.name)
    g = Walker(p, inline=lambda g: g.name not in keep + ("rti_write_barrier_ptr", "bitmap_test", "align_up"), vn=True, blocks=True, loops=2, max_paths=20000)
    seen = set()
    for q in g.paths(f):
        if q.dead:
            continue
        tr = q.trace()
        cp = [i for i, e in enumerate(q.ev) if e.k == "call" and is_copy(e) and U(e.args[0]) == ("a", 0)]
        ok = len(cp) == 1 and U(q.ev[cp[0]].args[1]) == ("a", 1) and fname(q.ev[cp[0]].args[2]) == "storage_size"
        if not c.check("store", f.name, ok, "typed", q.end_loc(), "a path of the typed barrier does not copy the whole value", tr):
            continue
        a = active(q)
        if a is False or any(pred == "eq" and const(b) == 0 and fname(x) == "last_ptr" for pred, x, b, e in known(q, len(q.ev))):
            continue
        for when, rng in (("before", (0, cp[0])), ("after", (cp[0], len(q.ev)))):
            bits = loop_bits(q, *rng)
            if bits is None:
                c.bad("overwritten" if when == "before" else "stored", "typed-%s" % when, q.end_loc(), "the reference slots of the value are not all visited %s the copy" % when, tr)
                continue
            for i, idx, val in bits:
                if not val:
                    continue
                seen.add(when)
                act = [e for e in q.ev[i:rng[1]] if e.k == "call" and e.name in ("shade_obj_grey", "rti_write_barrier_ptr", "span_of")
                       and any(mentions_idx(x, idx) and mentions(U(x), ("a", 0)) for x in e.args[:1])]
                skip = when == "before" and any(pred == "eq" and is_null(b) and mentions(U(x), ("a", 0)) and mentions_idx(x, idx) for pred, x, b, e in known(q, rng[1]))
                c.check("overwritten" if when == "before" else "stored", f.name, bool(act) or skip, "typed-slot-%s" % when, q.ev[i].loc, "a reference slot of the value is not reported %s the copy" % when, tr)
    c.need(seen == {"before", "after"}, "slot loops of the typed barrier not found")


def mentions_idx(e, idx):
    e = U(e)
    k = const(idx)
    if k is None:
        return mentions(e, U(idx))
    off = linear(e)[1]
    return off == k * 8 or k == 0 or any(const(x) in (k, 8 * k) for x in subexprs(e) if isinstance(x, tuple))


def loop_bits(q, lo, hi):
    """tests of the pointer bitmap inside the range: [(event index, slot index, truth)]; None if there is no loop over the slots"""
    out = []
    loop = False
    for i in range(lo, hi):
        e = q.ev[i]
        if e.k != "assume":
            continue
        x, t = strip_casts(e.cond), e.truth
        if x[0] == "not":
            x, t = strip_casts(x[1]), not t
        if x[0] == "cmp" and any(isinstance(y, tuple) and (y[:2] == ("call", "align_up") or fname(y) == "storage_size") for y in subexprs(x)):
            loop = True
        if x[0] == "cmp" and const(x[3]) == 0 and x[1] in ("eq", "ne"):
            t = t if x[1] == "ne" else not t
            x = strip_casts(x[2])
        if x[0] == "call" and x[1] == "bitmap_test":
            out.append((i, x[4], bool(t)))
    return out if loop or out else None


def black(pred, x, b):
    """gc_black >= gc_count: the stack of the running coroutine is scanned"""
    fx, fb = fname(x), fname(b)
    if fx == "gc_black" and fb == "gc_count":
        return pred in ("uge", "sge", "eq", "ugt", "sgt")
    if fx == "gc_count" and fb == "gc_black":
        return pred in ("ule", "sle", "eq", "ult", "slt")
    return False


def shade(c, p):
    """a shaded object is unmarked under the span's lock and queued on a list some worker still drains"""
    f = p.need("shade_obj_grey")
    c.unit(f.name)
    keep = ("in_heap", "span_of", "processor_get", "mutex_lock", "mutex_unlock", "insert_gc_worklist", "bitmap_clear")
    n = 0
    for q in Walker(p, inline=lambda g: g.name not in keep, vn=True, blocks=True, max_paths=5000).paths(f):
        if q.dead:
            continue
        if no_span(q, ("a", 0)):
            continue
        n += 1
        tr = q.trace()
        clr = [i for i, e in enumerate(q.ev) if e.k == "call" and e.name == "bitmap_clear" and fname(e.args[0]) == "gcmark_bits"]
        lk = [i for i, e in enumerate(q.ev) if e.k == "call" and e.name == "mutex_lock" and mentions_field(e.args[0], "gcmark_locker")]
        ul = [i for i, e in enumerate(q.ev) if e.k == "call" and e.name == "mutex_unlock" and mentions_field(e.args[0], "gcmark_locker")]
        c.check("queue", f.name, len(clr) == 1 and any(i < clr[0] for i in lk) and any(i > clr[0] for i in ul), "unmark", q.end_loc(), "the mark of a shaded object is not cleared under the span's lock", tr)
        ins = [i for i, e in enumerate(q.ev) if e.k == "call" and e.name == "insert_gc_worklist" and U(e.args[1]) == ("a", 0)]
        c.check("queue", f.name, len(ins) == 1, "insert", q.end_loc(), "a shaded object is not queued for scanning", tr)
        if clr and ins:
            c.check("queue", f.name, clr[0] < ins[0], "order", q.ev[ins[0]].loc, "a shaded object is queued before its mark is cleared, so a worker may drop it as already scanned", tr)
        for i in ins[:1]:
            a = U(q.ev[i].args[0])
            glob = a == ("g", "global_gc_worklist")
            own = a[0] == "fld" and a[3] == "gc_worklist"
            live = any(fname(x) == "gc_work_finished" and fname(b) == "gc_count" and pred in ("ult", "slt", "ne") or fname(b) == "gc_work_finished" and fname(x) == "gc_count" and pred in ("ugt", "sgt", "ne")
                       for pred, x, b, e in known(q, i))
            c.check("queue", f.name, glob or (own and live), "list", q.ev[i].loc, "a shaded object is queued on a list whose worker may have finished", tr)
    c.need(n >= 2, "queueing paths of shade_obj_grey not found")


def mentions_field(e, field):
    return any(isinstance(x, tuple) and x[:1] == ("fld",) and x[3] == field for x in subexprs(U(e)))


# ---------------------------------------------------------------- run-time stores
def fresh(q, base, upto):
    """the object was allocated on this path, or is a local"""
    b = U(base)
    while b[0] in ("fld", "idx", "bin"):
        b = U(b[1] if b[0] != "bin" else b[2])
    if b[0] == "al":
        return True
    if b[0] == "call" and b[1] in ALLOC:
        return True
    if b[0] == "ld":
        x = U(b[1])
        while x[0] in ("fld", "idx"):
            x = U(x[1])
        return x[0] == "al"
    return False


def pooled(e):
    """an idle wait record out of a processor's cache: the caches are scanned as roots"""
    return any(isinstance(x, tuple) and x[:1] == ("fld",) and x[3] == "linkco_cache" for x in subexprs(e)) or mentions(U(e), ("g", "global_linkco_cache"))


def all_of(f, e, ok, seen=None):
    """every value a merged expression can have satisfies ok (null excepted)"""
    e = U(e)
    seen = set() if seen is None else seen
    if e[0] == "phi":
        i = next((x for x in f.insts() if x.op == "phi" and U(static_expr(f, x.id)) == e), None)
        if i is None:
            return False
        if i.id in seen:
            return True
        seen.add(i.id)
        return all(is_null(static_expr(f, v)) or all_of(f, static_expr(f, v), ok, seen) for b, v in i.ops)
    return ok(e)


def ret_local(f):
    """position of a result object the caller provides"""
    return ("a", 0) if f.sret else None


def stores(c, p):
    n = m = 0
    for f in p.unique():
        if not (f.file or "").startswith("runtime/") or f.name in PRIM:
            continue
        hit = False
        for i in f.insts():
            if i.op == "store":
                a = U(static_expr(f, i.ops[1]))
                v = strip_all(static_expr(f, i.ops[0]))
                k = slot_key(a)
                if k not in SLOTS and not (k is None and field0(p, f, a)):
                    continue
                k = k or field0(p, f, a)
                hit = True
                if is_null(v) or (const(v) is not None):
                    c.ok("slots", f.name)
                    continue
                base = a[1] if a[0] == "fld" else a
                heap = U(base)[0] == "call" and U(base)[1] in ALLOC
                # memory allocated while marking is active counts as scanned: only objects that are new themselves may be placed into it
                good = (fresh(None, base, 0) and (not heap or (U(v)[0] == "call" and U(v)[1] in ALLOC))) or (ret_local(f) is not None and U(base) == ret_local(f)) or all_of(f, base, pooled) or outparam(p, f, k, base)
                n += 1
                c.check("slots", f.name, good, "%s:%s.%s" % (f.name, k[0], k[1]), i.loc, "%s.%s of a shared object is written without the barrier" % k)
            elif i.op == "call" and i.callee in PRIM:
                hit = True
                m += 1
                c.ok("slots", f.name)
        if hit:
            c.unit(f.name)
    c.need(m >= 15, "barrier uses in the runtime not found")


def outparam(p, f, k, base):
    """constructors fill a caller-provided value (`*_out`): the compiler passes a new stack slot"""
    b = U(base)
    return b[0] == "a" and f.name.endswith("_out")


def field0(p, f, a):
    return None


def elements(c, p):
    """element copies inside a map or a set, and clearing of removed elements"""
    n = 0
    for f in p.unique():
        if not (f.file or "").startswith("runtime/") or f.name in PRIM:
            continue
        hot = [i for i in f.insts() if i.op == "call" and (i.callee or "").startswith(("memmove", "memcpy", "memset", "llvm.mem"))]
        if not hot:
            continue
        dst = [i for i in hot if elem_of(static_expr(f, i.ops[0])) and not fresh(None, elem_base(static_expr(f, i.ops[0])), 0)]
        if not dst:
            continue
        c.unit(f.name)
        for i in dst:
            if i.callee.startswith(("memset", "llvm.memset")):
                if elem_of(static_expr(f, i.ops[0])) in HELD:
                    continue
                a = U(static_expr(f, i.ops[0]))
                pre = [x for x in f.insts() if x.op == "call" and x.callee == "rti_write_barrier_rtype" and linear(U(static_expr(f, x.ops[0]))) == linear(a) and (f.dom(x.bb, i.bb) if callable(f.dom) else True)]
                n += 1
                c.check("elements", f.name, bool(pre), "%s:clear:%s.%s" % ((f.name,) + elem_of(a)), i.loc, "elements are cleared without reporting the references they held")
            elif not zeroed(f, i):
                n += 1
                c.bad("elements", "%s:copy:%s.%s" % ((f.name,) + elem_of(static_expr(f, i.ops[0]))), i.loc, "elements of a shared container are written without the barrier")
        c.ok("elements", f.name)
    for name, fld in (("rt_map_assign", "key_data"), ("_rt_set_add", "key_data"), ("rti_vec_assign", "data"), ("map_grow", "value"), ("rt_map_delete", "value_data"), ("rt_map_delete", "key_data"), ("rt_set_delete", "key_data")):
        f = p.need(name)
        reach = Reach(p, ("rti_write_barrier_rtype",))
        c.check("elements", f.name, reach(f), "%s:uses-barrier" % name, f.loc, "%s writes no element through the barrier" % name)


def zeroed(f, i):
    """the copy's source is a local that only ever was cleared"""
    s = U(static_expr(f, i.ops[1]))
    if s[0] != "al":
        return False
    for x in f.insts():
        if x.op == "store" and inside(static_expr(f, x.ops[1]), s) and const(strip_all(static_expr(f, x.ops[0]))) != 0:
            return False
        if x.op == "call" and x is not i and not (x.callee or "").startswith(("llvm.memset", "memset", "llvm.dbg", "llvm.lifetime")) and any(inside(static_expr(f, o), s) for o in x.ops):
            return False
    return True


def elem_base(e):
    e = U(e)
    if slot_key(e) in HELD:
        return e[1]
    while True:
        if e[0] == "ld" and slot_key(e[1]) in ELEMS:
            return U(e[1])[1]
        if e[0] in ("idx", "fld"):
            e = U(e[1])
        elif e[0] == "bin":
            e = U(e[2])
        else:
            return None


def elem_of(e):
    e = U(e)
    if slot_key(e) in HELD:
        return slot_key(e)
    while True:
        if e[0] == "ld" and slot_key(e[1]) in ELEMS:
            return slot_key(e[1])
        if e[0] in ("idx", "fld"):
            e = U(e[1])
        elif e[0] == "bin":
            e = U(e[2])
        else:
            return None


# ---------------------------------------------------------------- compiled code
FORMS = {"AST_EXPR_VEC_ACCESS", "AST_EXPR_ARRAY_ACCESS", "AST_EXPR_MAP_ACCESS", "AST_EXPR_ENV_ACCESS", "AST_EXPR_TUPLE_ACCESS", "AST_EXPR_STRUCT_SELECT", "AST_EXPR_UNARY", "AST_EXPR_IDENT"}


def compiled(c, p):
    L = Lir(p)
    K = Kinds(p)
    T = K.val
    refs = frozenset(T[k] for k in REFS)
    ptr = p.enum("STORAGE_KIND_PTR")
    var = p.enum("LIR_OPERAND_VAR")
    forms = {p.enum(x): x for x in FORMS}
    pure = {g.name for g in p.unique()} | {"linked_push", "push_rt_call"}
    keep = {"linear_expr", "linear_super_move", "linear_ident", "linear_array_access", "linear_inline_vec_element_addr", "linear_inline_env_values", "linear_lea_builtin_value_struct",
            "linear_tuple_destr_stmt", "linear_tuple_destr", "linear_has_panic"}
    root = p.need("linear_assign")
    inl = lambda g: g.name.startswith("linear_") and g.internal and g.name not in keep and g is not root
    seen = set()
    c.unit(root.name)
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=inl, pure=pure, loops=1, max_paths=60000).paths(root):
        if q.dead or not K.feasible(q):
            continue
        form = None
        store = True
        isvar = None
        for e in q.ev:
            if e.k != "assume":
                continue
            x, t = strip_casts(e.cond), e.truth
            if x[0] == "not":
                x, t = strip_casts(x[1]), not t
            if x[0] != "cmp" or x[1] not in ("eq", "ne") or const(x[3]) is None:
                continue
            t = bool(t) == (x[1] == "eq")
            y = U(x[2])
            if fname(y) == "assert_type" and const(x[3]) in forms and t and form is None and not mentions_call(y):
                form = forms[const(x[3])]
            if fname(y) == "assert_type" and mentions_call(y) and const(x[3]) == var:
                isvar = t
            if fname(y) == "storage_kind" and not mentions(y, ("call", "x")):
                # a single-word reference is stored as a pointer
                if (const(x[3]) == ptr) != t:
                    store = False
        if form is None or not store:
            continue
        ks = [v for k, v in K.narrow(q).items() if not mentions_call(k) and path_names(k) <= {"left", "type", "kind", "element_type", "value"}]
        cur = refs
        for v in ks:
            if len(v) < len(K.all):
                cur = cur & v
        if not cur:
            continue
        if form == "AST_EXPR_IDENT" and isvar:
            seen.add("local")
            continue
        ops = L.emitted(q)
        bar = [o for o in ops if o.code == "RT_CALL" and o.rt == "write_barrier"]
        tr = q.trace()
        seen.add(form)
        kinds = ",".join(sorted(K.name[k] for k in cur))
        if not c.check("compiled", root.name, len(bar) == 1, "%s:barrier" % form, q.end_loc(), "an assignment of a %s reference through %s emits no barrier" % (kinds, form), tr):
            continue
        o = bar[0]
        src = [x for x in ops if x.code == "GEN" and x.rt == "linear_expr" and "right" in path_names(x.args[1])]
        c.check("compiled", root.name, len(src) == 1 and U(o.args[1]) == U(src[0].r), "%s:value" % form, o.loc, "the stored value is %s" % show(o.args[1]), tr)
        c.check("compiled", root.name, U(o.args[0]) != U(o.args[1]), "%s:slot" % form, o.loc, "the slot is the value itself", tr)
        plain = [x for x in ops if (x.code == "GEN" and x.rt == "linear_super_move" or x.code == "MOVE") and src and any(U(y) == U(src[0].r) for y in (x.args[3:4] if x.code == "GEN" else (x.a,)) if y is not None)]
        c.check("compiled", root.name, not plain, "%s:plain" % form, plain[0].loc if plain else "", "the reference is also stored without the barrier", tr)
    miss = (FORMS | {"local"}) - seen
    c.need(not miss, "no lowering path for %s" % sorted(miss))
    # compound values
    f = p.need("linear_super_move")
    for q in Walker(p, vn=True, blocks=True, inline=lambda g: False, pure=pure).paths(f):
        if q.dead:
            continue
        if any(e.k == "call" and e.name == "lir_memory_mov" for e in q.ev) and not any(e.k == "call" and e.name == "push_rt_call" for e in q.ev):
            c.bad("compound", "linear_super_move", q.end_loc(), "a compound value (string, vector, struct, union) that holds references is stored with a plain memory move")
            break
    else:
        c.ok("compound", f.name)


def mentions_call(e):
    return any(isinstance(x, tuple) and x[:1] == ("call",) for x in subexprs(e))


def path_names(e):
    return {x[3] for x in subexprs(U(e)) if isinstance(x, tuple) and x[:1] == ("fld",)}


def body(c):
    c.rule("store", "every path of a barrier primitive stores exactly the given value", 3)
    c.rule("overwritten", "while marking is active the overwritten references are reported before they are lost", 3)
    c.rule("stored", "while marking is active the stored reference is reported unless it is null or the stack is already scanned", 3)
    c.rule("queue", "a reported object is unmarked under its span's lock and then queued on a list that is still drained", 4)
    c.rule("slots", "reference slots of shared run-time objects are written through the barrier", 20)
    c.rule("elements", "elements of maps and sets are written and cleared through the barrier", 5)
    c.rule("compiled", "every assignment of a single-word reference to memory outside the stack emits one barrier call with the assigned value", 15)
    c.rule("compound", "compound values that hold references are stored through the barrier", 1)
    r = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    c.section(primitives, c, r)
    c.section(shade, c, r)
    c.section(stores, c, r)
    c.section(elements, c, r)
    c.section(compiled, c, Program("compiler", lambda f: f.startswith(("src/", "utils/"))))


main("R05", TECH, body)
