"""R18: dynamic type tests and conversions answer for the stored type and never reinterpret a value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
from lir import Lir
from kinds import Kinds

TECH = ("path rules over the boxing, test and extraction functions of the runtime (representation per storage kind must agree between writer and reader), "
        "and over the code the compiler emits for `as` and `is` per pair of type kinds (LLVM IR)")

PURE = {"rt_find_rtype", "rti_array_new", "rti_gc_malloc", "rt_rtype_stack_size", "rti_throw", "fetch_addr_value"}


def U(e):
    return unversion(strip_all(e))


def narrowed(e):
    """the value lost bits on its way"""
    return any(x[0] == "cast" and x[1] in ("trunc", "fptrunc") for x in subexprs(e))


def tag_of(e):
    """the operand is the full hash of a tag's name"""
    e = strip_casts(e)
    if e[0] == "call" and e[1] in ("int_operand", "uint_operand"):
        e = e[3]
    n = narrowed(e)
    e = U(e)
    return not n and e[0] == "call" and e[1] == "hash_string" and any(z[0] == "ld" and (key_of(z) or (0, 0))[1] == "tagged_name" for z in subexprs(e))


def fields(e):
    """field names from the base outward, with the base expression"""
    out = []
    e = strip_casts(e)
    while e[0] in ("fld", "ld"):
        if e[0] == "fld":
            out.append(e[3])
        e = strip_casts(e[1])
    return list(reversed(out)), e


def body(c):
    c.rule("test", "a type test returns exactly whether the identity recorded in the value is the requested one", 3)
    c.rule("extract", "a value is copied out only on paths where the recorded identity is the requested one; otherwise an error is raised and nothing is written", 12)
    c.rule("box", "boxing records the descriptor of the given type and copies exactly its size", 10)
    c.rule("repr", "extraction reads each storage kind from where boxing puts it", 9)
    c.rule("lower-as", "a conversion between kinds emits the runtime operation for that pair, with the identity of the right type, and leaves on failure before the value is used", 30)
    c.rule("lower-is", "a type test is lowered to the runtime test of its kind with the identity of the tested type", 8)
    c.rule("tag", "tag values of a tagged union are built, stored and tested from the same name at the same place", 6)
    c.rule("static", "a conversion the runtime cannot check is only accepted by the type checker when the types make it safe", 6)
    rt = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    cp = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    c.section(runtime, c, rt)
    c.section(lowering, c, cp)
    c.section(checker, c, cp)


def kinds_of_storage(p, q, desc=None):
    """storage kinds admitted by the path, by descriptor expression"""
    vals = {p.enum(n): n for n in ("STORAGE_KIND_DIR", "STORAGE_KIND_IND", "STORAGE_KIND_PTR")}
    ks = set(vals)
    for e in q.ev:
        if e.k == "assume":
            x = U(e.cond)
            if x[0] == "cmp" and x[1] in ("eq", "ne") and key_of(strip_casts(x[2])) == ("rtype_t", "storage_kind") and const(x[3]) is not None:
                hit = {const(x[3])}
                ks &= hit if (x[1] == "eq") == bool(e.truth) else (set(vals) - hit)
    return {vals[k] for k in ks}


def place(e, root):
    """how an address relates to the value field of the dynamic object root: inline, boxed, or None"""
    e = strip_casts(e)
    f, b = fields(e)
    if not f or "value" not in f or b != root:
        return None
    n = 0
    x = e
    while x[0] in ("fld", "ld"):
        n += x[0] == "ld"
        x = strip_casts(x[1])
    return "boxed" if n else "inline"


def runtime(c, p):
    inl = lambda g: g.name not in PURE and g.file.startswith("runtime/nutils/") and not g.name.startswith("rti_")
    W = lambda: Walker(p, vn=True, blocks=True, inline=inl, pure=PURE, loops=0)
    ks = ("STORAGE_KIND_DIR", "STORAGE_KIND_IND", "STORAGE_KIND_PTR")
    for n in ("union_is", "any_is", "interface_is"):
        f = p.need(n)
        c.unit(n)
        for q in W().paths(f):
            if q.dead:
                continue
            r = U(q.ev[-1].val)
            ok = False
            if r[0] == "cmp" and r[1] == "eq":
                ok = is_id(r[2], ("a", 0)) and r[3] == ("a", 1) or is_id(r[3], ("a", 0)) and r[2] == ("a", 1)
            elif const(r) is not None:
                same = same_id(q, ("a", 0), ("a", 1))
                ok = same is not None and same == bool(const(r))
            ok = ok and not narrowed(q.ev[-1].val) and not any(narrowed(e.cond) for e in q.ev if e.k == "assume")
            c.check("test", n, ok, n, q.end_loc(), "%s answers %s" % (n, show(q.ev[-1].val)), q.trace())

    boxes = {}
    for n in ("union_casting", "any_casting", "interface_casting"):
        f = p.need(n)
        c.unit(n)
        boxes[n] = {}
        for q in W().paths(f):
            if q.dead:
                continue
            tr = q.trace()
            desc = final(q, "rtype")
            d = U(desc) if desc is not None else None
            ok = d is not None and d[0] == "call" and d[1] == "rt_find_rtype" and U(d[3]) == ("a", 1)
            c.check("box", n, ok, "%s:desc" % n, q.end_loc(), "the value is recorded with descriptor %s" % (show(desc) if desc else "none"), tr)
            cp = [e for e in q.ev if is_copy(e)]
            vals = [e for e in cp if U(e.args[1]) == ("a", 2)]
            fx = any(e.k == "store" and place(e.addr, ("a", 0)) and U(e.val) == ("a", 2) for e in q.ev)
            for e in vals:
                sz = U(e.args[2])
                ok = sz[0] == "ld" and key_of(sz) == ("rtype_t", "storage_size") and d is not None and U(sz[1][1]) == d
                c.check("box", n, ok, "%s:size" % n, e.loc, "%s bytes of the value are kept" % show(e.args[2]), tr)
            c.check("box", n, len(vals) == 1 or fx, "%s:copy" % n, q.end_loc(), "the value is not copied into the new object" if not vals else "the value is copied more than once", tr)
            for k in kinds_of_storage(p, q):
                if fx:
                    pl = "boxed"
                elif vals:
                    dst = vals[0].args[0]
                    pl = place(dst, ("a", 0))
                    if pl is None:
                        # boxed: fresh memory whose address becomes the value
                        d2 = U(dst)
                        st = [e for e in q.ev if e.k == "store" and place(e.addr, ("a", 0)) == "inline" and U(e.val) == d2]
                        pl = "boxed" if st and d2[0] == "call" else None
                else:
                    pl = None
                c.check("box", n, pl is not None, "%s:%s:place" % (n, k), q.end_loc(), "the value of storage kind %s is put nowhere in the object" % k, tr)
                boxes[n].setdefault(k, set()).add(pl)
    for n, b in (("union_assert", "union_casting"), ("any_assert", "any_casting"), ("interface_assert", "interface_casting")):
        f = p.need(n)
        c.unit(n)
        reads = {}
        for q in W().paths(f):
            if q.dead:
                continue
            tr = q.trace()
            wr = [e for e in q.ev if (is_copy(e) and U(e.args[0]) == ("a", 2)) or (e.k == "store" and U(e.addr) == ("a", 2))]
            th = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and "throw" in e.name]
            for e in wr:
                same = same_id(q, ("a", 0), ("a", 1), q.index(e))
                c.check("extract", n, same is True, "%s:guard" % n, e.loc, "%s hands out the value without knowing that its recorded type is the requested one" % n, tr)
                sz = U(e.args[2]) if e.k == "call" else ("c", 0)
                src = rtype_of_size(sz)
                ok = src is not None and (src[0] == "call" and src[1] == "rt_find_rtype" and U(src[3]) in (("a", 1),) or is_desc(src, ("a", 0)) or (src[0] == "call" and src[1] == "rt_find_rtype" and is_id(src[3], ("a", 0))))
                c.check("extract", n, ok, "%s:size" % n, e.loc, "%s bytes are copied out" % show(e.args[2] if e.k == "call" else e.val), tr)
                for k in kinds_of_storage(p, q):
                    reads.setdefault(k, set()).add(place(e.args[1], ("a", 0)) if e.k == "call" else None)
            same = same_id(q, ("a", 0), ("a", 1))
            if same is False:
                c.check("extract", n, bool(th) and not wr, "%s:fail" % n, q.end_loc(), "a failed conversion %s" % ("writes the result" if wr else "raises no error"), tr)
            else:
                c.check("extract", n, not th or same is None, "%s:ok" % n, q.end_loc(), "a matching conversion raises an error", tr)
                c.check("extract", n, bool(wr) or bool(th), "%s:nothing" % n, q.end_loc(), "the conversion neither delivers a value nor raises", tr)
        for k in ks:
            c.check("repr", n, reads.get(k) == boxes[b].get(k) and bool(reads.get(k)), "%s:%s" % (n, k), f.loc,
                    "values of storage kind %s are kept %s but read %s" % (k, sorted(map(str, boxes[b].get(k, []))), sorted(map(str, reads.get(k, [])))))
    f = p.need("ptr_assert")
    c.unit(f.name)
    for q in W().paths(f):
        if q.dead:
            continue
        null = None
        for e in q.ev:
            if e.k == "assume":
                x = U(e.cond)
                if x[0] == "cmp" and x[2] == ("a", 0) and const(x[3]) == 0:
                    null = (x[1] == "eq") == bool(e.truth)
        th = any(e.k == "call" and isinstance(e.name, str) and "throw" in e.name for e in q.ev)
        if null is True:
            c.check("extract", f.name, th, "ptr:null", q.end_loc(), "a null pointer passes the non-null assertion", q.trace())
        else:
            c.check("extract", f.name, null is False and not th and U(q.ev[-1].val) == ("a", 0), "ptr:value", q.end_loc(), "the asserted pointer is not handed on", q.trace())
    f = p.need("union_to_any")
    c.unit(f.name)
    for q in Walker(p, vn=True, blocks=True, inline=lambda g: False, pure=PURE, loops=0).paths(f):
        if q.dead:
            continue
        b = [e for e in q.ev if e.k == "call" and e.name == "any_casting"]
        if not c.check("box", f.name, len(b) == 1, "union_to_any:call", q.end_loc(), "the member of the union is not boxed", q.trace()):
            continue
        e = b[0]
        c.check("box", f.name, is_id(e.args[1], ("a", 1)), "union_to_any:id", e.loc, "the new value is recorded as %s" % show(e.args[1]), q.trace())
        c.check("box", f.name, U(e.args[0]) == ("a", 0) and U(e.args[3]) == ("a", 2), "union_to_any:args", e.loc, "the result object or mode is not passed on", q.trace())
        for k in kinds_of_storage(p, q):
            c.check("repr", f.name, {place(e.args[2], ("a", 1))} == boxes["union_casting"].get(k), "union_to_any:%s" % k, e.loc,
                    "the member of storage kind %s is taken from %s" % (k, show(e.args[2])), q.trace())
    f = p.need("tagged_union_casting")
    c.unit(f.name)
    for q in W().paths(f):
        if q.dead:
            continue
        tag = final(q, "tag_hash")
        c.check("tag", f.name, tag is not None and U(tag) == ("a", 1), "tag:store", q.end_loc(), "the stored tag is %s" % (show(tag) if tag else "not set"), q.trace())
        none = any(e.k == "assume" and U(e.cond)[0] == "cmp" and U(e.cond)[2] == ("a", 2) and const(U(e.cond)[3]) == 0 and (U(e.cond)[1] == "eq") == bool(e.truth) for e in q.ev)
        vals = [e for e in q.ev if is_copy(e) and U(e.args[1]) == ("a", 3)]
        if not none:
            ok = len(vals) == 1 and place(vals[0].args[0], ("a", 0)) == "inline"
            c.check("tag", f.name, ok, "tag:payload", q.end_loc(), "the payload is not put into the object", q.trace())
            for e in vals:
                d = rtype_of_size(U(e.args[2]))
                c.check("tag", f.name, d is not None and d[0] == "call" and U(d[3]) == ("a", 2), "tag:size", e.loc, "%s payload bytes are kept" % show(e.args[2]), q.trace())


def final(q, field):
    v = None
    for e in q.ev:
        if e.k == "store" and strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[3] == field and fields(e.addr)[1] == ("a", 0):
            v = e.val
    return v


def rtype_of_size(sz):
    return U(sz[1][1]) if sz[0] == "ld" and key_of(sz) == ("rtype_t", "storage_size") else None


def is_desc(e, root):
    e = U(e)
    return e[0] == "ld" and (key_of(e) or (0, 0))[1] == "rtype" and fields(e)[1] == root


def is_id(e, root):
    """the hash of the descriptor recorded in root"""
    e = U(e)
    return e[0] == "ld" and key_of(e) == ("rtype_t", "hash") and is_desc(e[1][1], root)


def same_id(q, root, target, upto=None):
    for e in q.ev[:upto]:
        if e.k == "assume" and not narrowed(e.cond):
            x = U(e.cond)
            if x[0] == "cmp" and x[1] in ("eq", "ne"):
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    if is_id(a, root) and U(b) == target:
                        return (x[1] == "eq") == bool(e.truth)
    return None


# ---------------------------------------------------------------- compiler
def lowering(c, p):
    L = Lir(p)
    K = Kinds(p)
    T = K.val
    pure = {g.name for g in p.unique()} | {"linked_push", "push_rt_call"}
    keep = {"linear_expr", "linear_super_move", "linear_has_panic", "linear_lea_builtin_value_struct", "temp_var_operand", "temp_var_operand_with_alloc",
            "lea_operand_pointer", "indirect_addr_operand", "linear_bal_error"}

    def inl(root):
        return lambda g: g.name.startswith("linear_") and g.internal and g.name not in keep and g is not root and p.callers(g.name) and all(i.fn is root for i in p.callers(g.name))

    f = p.need("linear_as_expr")
    c.unit(f.name)
    seen = set()
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=inl(f), pure=pure, loops=1, max_paths=60000).paths(f):
        if q.dead or not K.feasible(q):
            continue
        ks = K.narrow(q)
        S = pick(ks, K, ("src", "type", "kind"))
        D = pick(ks, K, ("target_type", "kind"))
        if equal_types(q):
            continue
        ops = L.emitted(q)
        rts = [o for o in ops if o.code == "RT_CALL"]
        tr = q.trace()
        one = lambda k: T[k]
        # extraction
        for kind, call in (("TYPE_ANY", "any_assert"), ("TYPE_UNION", "union_assert"), ("TYPE_INTERFACE", "interface_assert")):
            if S == {one(kind)} and not (D & {T["TYPE_ANY"], T["TYPE_UNION"]} and len(D) == 1) and not numeric(D, K):
                got = [o for o in rts if o.rt == call]
                seen.add(call)
                if c.check("lower-as", f.name, len(got) == 1, "%s:call" % kind, q.end_loc(), "a conversion out of %s emits %s" % (kind, [o.rt for o in rts]), tr):
                    o = got[0]
                    c.check("lower-as", f.name, type_of_hash(o.args[1]) == "target_type", "%s:hash" % kind, o.loc, "the requested type is given as %s" % show(o.args[1]), tr)
                    i = ops.index(o)
                    nxt = [x for x in ops[i + 1:] if not (x.code == "GEN" and x.rt in ("temp_var_operand", "lea_operand_pointer"))]
                    ok = bool(nxt) and nxt[0].code == "GEN" and nxt[0].rt == "linear_has_panic"
                    c.check("lower-as", f.name, ok, "%s:leave" % kind, o.loc, "after a failed conversion the code goes on", tr)
                    c.check("lower-as", f.name, moved_from(ops[:i], o.args[0], src_operand(ops)), "%s:object" % kind, o.loc, "the object handed to the runtime is not the converted value", tr)
                    c.check("lower-as", f.name, delivers(q, ops, i, o.args[2]), "%s:result" % kind, o.loc, "the extracted value does not reach the result", tr)
        if S == {T["TYPE_PTR"]} and D and T["TYPE_ANYPTR"] not in D and not (D & {T["TYPE_ANY"], T["TYPE_UNION"], T["TYPE_INTERFACE"]} and len(D) == 1):
            got = [o for o in rts if o.rt == "ptr_assert"]
            seen.add("ptr_assert")
            ok = len(got) == 1 and any(x.code == "GEN" and x.rt == "linear_has_panic" for x in ops[ops.index(got[0]) + 1:])
            c.check("lower-as", f.name, ok, "TYPE_PTR", q.end_loc(), "a nullable pointer is used as a reference unchecked", tr)
        # boxing
        for kind, call, n in (("TYPE_ANY", "any_casting", 3), ("TYPE_UNION", "union_casting", 3), ("TYPE_INTERFACE", "interface_casting", 3)):
            if D == {one(kind)} and not (kind == "TYPE_ANY" and S == {T["TYPE_UNION"]}) and not (kind == "TYPE_INTERFACE" and len(S) == 1 and S & {T["TYPE_ANY"], T["TYPE_UNION"], T["TYPE_INTERFACE"], T["TYPE_TAGGED_UNION"]}):
                got = [o for o in rts if o.rt == call]
                seen.add(call)
                if c.check("lower-as", f.name, len(got) == 1, "to-%s:call" % kind, q.end_loc(), "a conversion to %s emits %s" % (kind, [o.rt for o in rts]), tr):
                    o = got[0]
                    c.check("lower-as", f.name, type_of_hash(o.args[1]) == "src", "to-%s:hash" % kind, o.loc, "the value is recorded with the type %s" % show(o.args[1]), tr)
                    ind = storage_ind(p, q, ("src", "type", "storage_kind"))
                    v = strip_casts(o.args[2])
                    lea = v[0] == "call" and v[1] == "lea_operand_pointer" and U(v[4]) == U(src_operand(ops))
                    mv = moved_from(ops, o.args[2], src_operand(ops))
                    c.check("lower-as", f.name, ind is not None and (mv if ind else lea), "to-%s:value:%s" % (kind, ind), o.loc, "the address of the value is given as %s" % show(o.args[2]), tr)
                    c.check("lower-as", f.name, writes_target(q, ops, o.args[0]), "to-%s:out" % kind, o.loc, "the new object is not written to the result", tr)
                    if kind == "TYPE_INTERFACE":
                        methods(c, f, q, o, tr)
        if D == {T["TYPE_ANY"]} and S == {T["TYPE_UNION"]}:
            got = [o for o in rts if o.rt == "union_to_any"]
            seen.add("union_to_any")
            ok = len(got) == 1 and moved_from(ops, got[0].args[1], src_operand(ops)) and writes_target(q, ops, got[0].args[0])
            c.check("lower-as", f.name, ok, "union-to-any", q.end_loc(), "a union converted to any emits %s" % [o.rt for o in rts], tr)
        if S == {T["TYPE_TAGGED_UNION"]} and not (D & {T["TYPE_ANY"], T["TYPE_UNION"]} and len(D) == 1) and not numeric(D, K):
            pay = [o for o in ops if o.code == "GEN" and o.rt == "indirect_addr_operand" and U(o.args[2]) == U(src_operand(ops))]
            ok = len(pay) == 1 and const(pay[0].args[3]) == 8
            seen.add("tag")
            c.check("tag", f.name, ok, "tag:payload-read", q.end_loc(), "the payload of a tagged union is read at offset %s" % (show(pay[0].args[3]) if pay else "?"), tr)
    miss = {"any_assert", "union_assert", "interface_assert", "ptr_assert", "any_casting", "union_casting", "interface_casting", "union_to_any", "tag"} - seen
    c.need(not miss, "no lowering path for %s" % sorted(miss))

    f = p.need("linear_is_expr")
    c.unit(f.name)
    seen = set()
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=inl(f), pure=pure, loops=1, max_paths=60000).paths(f):
        if q.dead or not K.feasible(q):
            continue
        S = pick(K.narrow(q), K, ("src", "type", "kind"))
        ops = L.emitted(q)
        tr = q.trace()
        rts = [o for o in ops if o.code == "RT_CALL"]
        ret = U(q.ev[-1].val)
        for kind, call in (("TYPE_ANY", "any_is"), ("TYPE_UNION", "union_is"), ("TYPE_INTERFACE", "interface_is")):
            if T[kind] in S and T["TYPE_PTR"] not in S and T["TYPE_TAGGED_UNION"] not in S:
                seen.add(kind)
                ok = len(rts) == 1 and rts[0].rt == call
                if c.check("lower-is", f.name, ok, "%s:call" % kind, q.end_loc(), "a type test on %s emits %s" % (kind, [o.rt for o in rts]), tr):
                    o = rts[0]
                    c.check("lower-is", f.name, type_of_hash(o.args[1]) == "target_type", "%s:hash" % kind, o.loc, "the tested type is given as %s" % show(o.args[1]), tr)
                    c.check("lower-is", f.name, moved_from(ops, o.args[0], src_operand(ops)) and o.r is not None and U(o.r) == ret, "%s:args" % kind, o.loc, "the test is not applied to the value or its answer is dropped", tr)
        if S == {T["TYPE_TAGGED_UNION"]}:
            seen.add("tag")
            see = [o for o in ops if o.code in ("SEE", "SNE")]
            ok = len(see) == 1 and see[0].code == "SEE" and U(see[0].r) == ret
            if ok:
                sides = [U(see[0].a), U(see[0].b)]
                nm = [x for x in (see[0].a, see[0].b) if tag_of(x)]
                ld = [x for x in sides if x[0] == "call" and x[1] == "indirect_addr_operand" and const(x[6]) == 0 and x[5] == U(src_operand(ops))]
                ok = len(nm) == 1 and len(ld) == 1
            c.check("tag", f.name, ok, "tag:test", q.end_loc(), "the test of a tag compares %s" % [repr(o) for o in see], tr)
        if S == {T["TYPE_PTR"]}:
            seen.add("ptr")
            see = [o for o in ops if o.code in ("SEE", "SNE")]
            ok = len(see) == 1 and see[0].code == "SEE" and U(see[0].r) == ret and {U(see[0].a), U(see[0].b)} >= {U(src_operand(ops))} and any(y[0] == "call" and y[1] == "int_operand" and const(y[3]) == 0 for y in (U(see[0].a), U(see[0].b)))
            c.check("lower-is", f.name, ok, "null", q.end_loc(), "the null test of a pointer compares %s" % [repr(o) for o in see], tr)
    c.need(seen >= {"TYPE_ANY", "TYPE_UNION", "TYPE_INTERFACE", "tag", "ptr"}, "no lowering path for a type test on %s" % sorted({"TYPE_ANY", "TYPE_UNION", "TYPE_INTERFACE", "tag", "ptr"} - seen))

    f = p.need("linear_tagged_union_new")
    c.unit(f.name)
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=inl(f), pure=pure, loops=1).paths(f):
        if q.dead:
            continue
        ops = L.emitted(q)
        rts = [o for o in ops if o.code == "RT_CALL" and o.rt == "tagged_union_casting"]
        if not c.check("tag", f.name, len(rts) == 1, "tag:new", q.end_loc(), "a tagged value is built by %s" % [o.rt for o in ops if o.code == "RT_CALL"], q.trace()):
            continue
        o = rts[0]
        c.check("tag", f.name, tag_of(o.args[1]), "tag:new-id", o.loc, "the tag of a new value is computed from %s" % show(o.args[1]), q.trace())
        payload = any(x.code == "GEN" and x.rt == "linear_expr" for x in ops)
        if payload:
            h = [y for y in subexprs(U(o.args[2])) if y[0] == "call" and y[1] == "type_hash"]
            ok = bool(h) and fields(h[0][3])[0][-2:] == ["element", "type"] or bool(h) and h[0][3][0] == "al"
            c.check("tag", f.name, ok, "tag:new-type", o.loc, "the payload type is given as %s" % show(o.args[2]), q.trace())
        else:
            c.check("tag", f.name, any(y == ("c", 0) for y in subexprs(U(o.args[2]))), "tag:new-void", o.loc, "a tag without payload is given payload type %s" % show(o.args[2]), q.trace())


def numeric(D, K):
    n = {K.val[k] for k in K.val if k.startswith(("TYPE_INT", "TYPE_UINT", "TYPE_FLOAT"))} - {K.val.get("TYPE_INTERFACE")}
    return bool(D) and D <= n and False


def pick(ks, K, path):
    for e, v in ks.items():
        if e[0] == "ld" and tuple(fields(e)[0][-len(path):]) == path:
            return set(v)
    return set(K.all)


def equal_types(q):
    for e in q.ev:
        if e.k == "assume":
            x = U(e.cond)
            t = bool(e.truth)
            if x[0] == "cmp" and const(x[3]) == 0:
                t = t if x[1] == "ne" else not t
                x = x[2]
            if x[0] == "call" and x[1] == "type_compare" and t:
                return True
    return False


def type_of_hash(e):
    """'src' or 'target_type': whose type_hash an operand is"""
    e = strip_casts(e)
    if e[0] == "call" and e[1] in ("int_operand", "uint_operand"):
        e = e[3]
    y = U(e)
    if not narrowed(e) and y[0] == "call" and y[1] == "type_hash":
        f = fields(y[3])[0]
        if f and f[-1] == "target_type":
            return "target_type"
        if f[-2:] == ["src", "type"]:
            return "src"
    return None


def src_operand(ops):
    for o in ops:
        if o.code == "GEN" and o.rt == "linear_expr":
            return o.r
    return ("c", 0)


def moved_from(ops, x, src):
    """operand x holds src: it is src itself, or a move copied src into it"""
    u = U(x)
    if u == U(src):
        return True
    for o in ops:
        if o.code == "MOVE" and o.r is not None and same_operand(o.r, x) and U(o.a) == U(src):
            return True
    return False


def same_operand(a, b):
    return strip_casts(a) == strip_casts(b)


def delivers(q, ops, i, ref):
    """the memory handed out as result slot is the result, or is moved into it afterwards"""
    ret = q.ev[-1].val
    r = strip_casts(ref)
    if r[0] == "call" and r[1] == "lea_operand_pointer":
        tgt = r[4]
        if U(tgt) == U(ret):
            return True
        return any(o.code == "MOVE" and U(o.a) == U(tgt) and U(o.r) == U(ret) for o in ops[i + 1:])
    return writes_target(q, ops, ref)


def writes_target(q, ops, ref):
    ret = q.ev[-1].val
    for o in ops:
        if o.code == "MOVE" and o.r is not None and same_operand(o.r, ref):
            a = U(o.a)
            if a == U(ret) or (a[0] == "call" and a[1] == "lea_operand_pointer" and a[4] == U(ret)):
                return True
    r = U(ref)
    return r[0] == "call" and r[1] == "lea_operand_pointer" and r[4] == U(ret)


def storage_ind(p, q, path):
    for e in q.ev:
        if e.k == "assume":
            x = U(e.cond)
            if x[0] == "cmp" and x[1] in ("eq", "ne") and x[2][0] == "ld" and tuple(fields(x[2])[0][-len(path):]) == path and const(x[3]) == p.enum("STORAGE_KIND_IND"):
                return (x[1] == "eq") == bool(e.truth)
    return None


def methods(c, f, q, o, tr):
    n = U(o.args[3])
    cnt = [y for y in subexprs(n) if y[0] == "ld" and fields(y)[0][-2:] == ["elements", "length"]]
    empty = any(e.k == "assume" and U(e.cond)[0] == "cmp" and any(y[0] == "ld" and fields(y)[0][-2:] == ["elements", "length"] for y in subexprs(U(e.cond)[2])) and const(U(e.cond)[3]) == 0 and
                ((U(e.cond)[1] in ("sgt", "ugt", "ne")) != bool(e.truth)) for e in q.ev)
    c.check("lower-as", f.name, bool(cnt) or empty, "methods:count", o.loc, "an interface value gets %s methods" % show(o.args[3]), tr)
    slots = [e for e in q.ev if e.k == "call" and e.name == "indirect_addr_operand" and len(e.args) > 3 and const(e.args[3]) is not None]
    offs = [const(e.args[3]) for e in slots]
    if not empty:
        c.check("lower-as", f.name, offs == [8 * k for k in range(len(offs))], "methods:order", o.loc, "methods are placed at %s" % offs, tr)


def checker(c, p):
    """infer_as_expr / infer_is_expr: what the type checker lets through"""
    K = Kinds(p)
    T = K.val
    f = p.need("infer_as_expr")
    c.unit(f.name)
    pure = {g.name for g in p.unique()} - {"infer_expr", "dump_errorf"}
    seen = set()
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=lambda g: False, pure=pure, loops=0, max_paths=60000).paths(f):
        if q.dead or not K.feasible(q):
            continue
        err = [e for e in q.ev if e.k == "call" and e.name == "dump_errorf"]
        ks = K.narrow(q)
        S = pick_src(ks, K, q)
        tagged = any(e.k == "assume" and any(z[0] == "ld" and (key_of(z) or (0, 0))[1] == "union_tag" for z in subexprs(U(e.cond))) and truthy(U(e.cond), e.truth) for e in q.ev)
        tr = q.trace()
        if tagged:
            seen.add("tag")
            c.check("static", f.name, bool(err) or S == {T["TYPE_TAGGED_UNION"]}, "tag", q.end_loc(), "a tag payload is taken from a value that is no tagged union", tr)
            continue
        if err:
            continue
        if S == {T["TYPE_UNION"]}:
            seen.add("union")
            ok = any(e.k == "assume" and any(z[0] == "call" and z[1] == "union_type_contains" for z in subexprs(U(e.cond))) and truthy(U(e.cond), e.truth) for e in q.ev)
            anyptr = any(e.k == "assume" and U(e.cond)[0] == "cmp" and const(U(e.cond)[3]) == T["TYPE_ANYPTR"] and (U(e.cond)[1] == "eq") == bool(e.truth) for e in q.ev)
            c.check("static", f.name, ok or anyptr, "union", q.end_loc(), "a union is converted to a type it does not contain", tr)
        if S == {T["TYPE_INTERFACE"]}:
            seen.add("interface")
            ok = any(e.k == "assume" and any(z[0] == "call" and z[1] == "check_impl_interface_contains" for z in subexprs(U(e.cond))) and truthy(U(e.cond), e.truth) for e in q.ev)
            anyptr = any(e.k == "assume" and U(e.cond)[0] == "cmp" and const(U(e.cond)[3]) == T["TYPE_ANYPTR"] and (U(e.cond)[1] == "eq") == bool(e.truth) for e in q.ev)
            c.check("static", f.name, ok or anyptr, "interface", q.end_loc(), "an interface value is converted to a type that does not implement it", tr)
        # anything else must be justified by a test on the pair
        just = False
        for e in q.ev:
            if e.k != "assume":
                continue
            x = U(e.cond)
            for z in subexprs(x):
                if z[0] == "call" and z[1] in ("union_type_contains", "check_impl_interface_contains", "is_vec_u8", "is_number", "type_compare_no_ident", "type_compare") and truthy(x, e.truth):
                    just = True
            if x[0] == "cmp" and const(x[3]) in (T["TYPE_ANYPTR"], T["TYPE_ANY"]) and (x[1] == "eq") == bool(e.truth):
                just = True
        c.check("static", f.name, just, "unjustified", q.end_loc(), "a conversion is accepted although no test relates the two types", tr)
    c.need(seen >= {"tag", "union", "interface"}, "conversions examined by the checker: %s" % sorted(seen))
    f = p.need("infer_is_expr")
    c.unit(f.name)
    for q in Walker(p, vn=True, blocks=True, kinds=K, inline=lambda g: False, pure=pure, loops=0, max_paths=60000).paths(f):
        if q.dead:
            continue
        err = [e for e in q.ev if e.k == "call" and e.name == "dump_errorf"]
        tagged = any(e.k == "assume" and any(z[0] == "ld" and (key_of(z) or (0, 0))[1] == "union_tag" for z in subexprs(U(e.cond))) and truthy(U(e.cond), e.truth) for e in q.ev)
        if err or not any(e.k == "call" and e.name == "infer_right_expr" for e in q.ev):
            continue
        kinds = None
        for e in q.ev:
            if e.k == "assume" and U(e.cond)[0] == "cmp" and key_of(strip_casts(U(e.cond)[2])) and key_of(strip_casts(U(e.cond)[2]))[1] == "kind" and (U(e.cond)[1] == "eq") == bool(e.truth):
                kinds = (kinds or set()) | {const(U(e.cond)[3])}
        ok = kinds is not None and bool(kinds & {T["TYPE_UNION"], T["TYPE_TAGGED_UNION"], T["TYPE_INTERFACE"], T["TYPE_ANY"]})
        c.check("static", f.name, ok, "is", q.end_loc(), "a type test is accepted on a value that records no type", q.trace())
        if tagged:
            ok = kinds is not None and T["TYPE_TAGGED_UNION"] in kinds and any(e.k == "call" and e.name == "infer_tagged_union_element" for e in q.ev)
            c.check("static", f.name, ok, "is-tag", q.end_loc(), "a tag test is accepted on a value that is no tagged union", q.trace())


def truthy(x, truth):
    t = bool(truth)
    if x[0] == "cmp" and const(x[3]) == 0:
        return t if x[1] in ("ne", "ugt", "sgt") else not t
    return t


def pick_src(ks, K, q):
    """kinds of the converted expression: its type field, or the local the inferred type was put into"""
    loc = [strip_casts(e.args[0]) for e in q.ev if e.k == "call" and e.name in ("infer_expr", "infer_right_expr")]
    out = set(K.all)
    for e, v in ks.items():
        if e[0] == "ld":
            f, b = fields(e)
            if tuple(f[-3:]) == ("src", "type", "kind") or (f == ["kind"] and b in loc):
                out &= v
    return out


main("R18", TECH, body)
