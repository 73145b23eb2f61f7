"""R21: two types are the same only if all their parts are; ill-typed positions are diagnosed."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *

TECH = ("component-coverage path analysis: every accepting path of the type comparison and every run-time identity must involve every component the type structures declare for that kind; "
        "target provenance analysis of every typed position in the checker (LLVM IR)")

# kind -> (declaring structure, components).  A component is a nested type, a list of nested parts, a number or a flag; the remaining members of the
# structures describe the declaration (name, default value, source position), not the type
PARTS = {
    "TYPE_REF": ("type_ptr_t", ["value_type"]),
    "TYPE_PTR": ("type_ptr_t", ["value_type"]),
    "TYPE_VEC": ("type_vec_t", ["element_type"]),
    "TYPE_CHAN": ("type_chan_t", ["element_type"]),
    "TYPE_SET": ("type_set_t", ["element_type"]),
    "TYPE_MAP": ("type_map_t", ["key_type", "value_type"]),
    "TYPE_ARR": ("type_array_t", ["length", "element_type"]),
    "TYPE_TUPLE": ("type_tuple_t", ["elements[]"]),
    "TYPE_STRUCT": ("type_struct_t", ["properties[].name", "properties[].type"]),
    "TYPE_FN": ("type_fn_t", ["return_type", "param_types[]", "is_rest", "is_c_variadic", "is_errable", "is_fx"]),
    "TYPE_UNION": ("type_union_t", ["elements[]"]),
    "TYPE_TAGGED_UNION": ("type_tagged_union_t", ["elements[].tag", "elements[].type"]),
}
META = {"ident", "fn_name", "is_tpl", "self_kind", "length_expr", "nullable"}
FLAGS = {"is_rest", "is_c_variadic", "is_errable", "is_fx"}


def U(e):
    return unversion(strip_all(e))


def truthy(e, truth):
    """the innermost value is known to be non-zero"""
    e = strip_casts(e)
    if e[0] == "not":
        return truthy(e[1], not truth)
    if e[0] == "cmp" and const(e[3]) == 0 and e[1] in ("eq", "ne"):
        return truthy(e[2], truth if e[1] == "ne" else not truth)
    return bool(truth)


def inner(e):
    e = strip_casts(e)
    while e[0] == "not" or (e[0] == "cmp" and const(e[3]) == 0 and e[1] in ("eq", "ne") and strip_casts(e[2])[0] == "call"):
        e = strip_casts(e[1] if e[0] == "not" else e[2])
    return e


def written(q, upto, addr):
    """the last event before `upto` that fills the object at addr, as ("copy", source) or ("call", event)"""
    addr = U(addr)
    for i in range(upto - 1, -1, -1):
        e = q.ev[i]
        if e.k != "call":
            continue
        if is_copy(e) and U(e.args[0]) == addr:
            return i, ("copy", e.args[1])
        if isinstance(e.name, str) and e.args and U(e.args[0]) == addr and not e.name.startswith("llvm.") and e.name in SRET:
            return i, ("call", e)
    return None


SRET = set()
ENUM = {}


def origin(q, upto, addr, n=0):
    """where the type at addr came from: ("at", address) or ("call", event)"""
    w = written(q, upto, addr)
    if w is None or n > 8:
        a = strip_casts(addr)
        # a field of an object that was itself copied as a whole
        if a[0] == "fld":
            b = written(q, upto, a[1])
            if b and b[1][0] == "copy":
                return origin(q, b[0], ("fld", b[1][1], a[2], a[3]), n + 1)
        return ("at", a)
    if w[1][0] == "copy":
        return origin(q, w[0], w[1][1], n + 1)
    return ("call", w[1][1])


def chain(e):
    """member path as text: a list element is [index]"""
    e = strip_casts(e)
    if e[0] == "ld":
        return chain(e[1])
    if e[0] == "fld":
        b = chain(e[1])
        return (b + "." if b else "") + ("value" if e[3] == "<anon>" else e[3])
    if e[0] == "call" and e[1] == "ct_list_value":
        i = const(e[4])
        return chain(e[3]) + "[%s]" % ("?" if i is None else i)
    if e[0] == "idx":
        i = const(e[2])
        return chain(e[1]) + "[%s]" % ("?" if i is None else i)
    if e[0] == "a":
        return ""
    if e[0] == "al":
        return "<%s>" % e[3]
    if e[0] == "call":
        return "%s()" % (e[1] if isinstance(e[1], str) else "?")
    return "?"


def base(e):
    e = strip_casts(e)
    while e[0] in ("ld", "fld", "idx") or (e[0] == "call" and e[1] == "ct_list_value"):
        e = strip_casts(e[3] if e[0] == "call" else e[1])
    return e


def resolve(q, i, e, n=0):
    """rewrite an address through the copies made on the path, so that a component of a copy is a component of the original"""
    e = strip_casts(e)
    if n > 12:
        return e
    w = written(q, i, e)
    if w and w[1][0] == "copy":
        return resolve(q, w[0], w[1][1], n + 1)
    if e[0] == "ld":
        return ("ld", resolve(q, i, e[1], n + 1), 0)
    if e[0] == "fld":
        return ("fld", resolve(q, i, e[1], n + 1), e[2], e[3])
    if e[0] == "idx":
        return ("idx", resolve(q, i, e[1], n + 1)) + tuple(e[2:])
    if e[0] == "call" and e[1] == "ct_list_value":
        return ("call", e[1], 0, resolve(q, i, e[3], n + 1)) + tuple(e[4:])
    return e


def bounds(q):
    """what the path knows about list lengths: chain of the list -> (at least, at most)"""
    out = {}
    for pred, a, b, e in known(q):
        for x, y, pr in ((a, b, pred), (b, a, {"slt": "sgt", "ult": "ugt", "sle": "sge", "ule": "uge", "sgt": "slt", "ugt": "ult", "sge": "sle", "uge": "ule"}.get(pred, pred))):
            x, y = strip_casts(x), strip_casts(y)
            k = const(y)
            if k is None or x[0] != "ld" or (key_of(x) or (0, 0))[1] not in ("length", "count"):
                continue
            ch = U(x[1])[1]
            lo, hi = out.get(ch, (0, None))
            n = {"ugt": (k + 1, None), "sgt": (k + 1, None), "uge": (k, None), "sge": (k, None), "ult": (0, k - 1), "slt": (0, k - 1), "ule": (0, k), "sle": (0, k),
                 "eq": (k, k), "ne": (1, None) if k == 0 else (0, None)}.get(pr)
            if n is None:
                continue
            lo = max(lo, n[0])
            if n[1] is not None:
                hi = n[1] if hi is None else min(hi, n[1])
            out[ch] = (lo, hi)
    return out


def contradictory(q):
    return any(hi is not None and lo > hi for lo, hi in bounds(q).values())


# ---------------------------------------------------------------- comparison

EQ = ("str_equal", "strcmp")
RECUR = {"type_compare_visited", "type_compare", "type_compare_no_ident"}
ARGS = "type_compare_ident_args_visited"
UNION = "type_union_compare"


def equalities(q):
    """pairs the path established to agree: (resolved a, resolved b, event)"""
    out = []
    for i, e in enumerate(q.ev):
        if e.k != "assume":
            continue
        x = strip_casts(e.cond)
        c = inner(x)
        if c[0] == "call" and isinstance(c[1], str):
            if (c[1] in RECUR or c[1] in (ARGS, UNION, "str_equal")) and truthy(x, e.truth):
                out.append((U(resolve(q, i, c[3])), U(resolve(q, i, c[4])), c[1]))
            if c[1] == "strcmp" and not truthy(x, e.truth):
                out.append((U(resolve(q, i, c[3])), U(resolve(q, i, c[4])), c[1]))
            continue
        while x[0] == "not":
            x = strip_casts(x[1])
    for pred, a, b, e in known(q):
        if pred == "eq":
            i = q.index(e)
            out.append((U(resolve(q, i, strip_casts(a))), U(resolve(q, i, strip_casts(b))), "=="))
    r = [e for e in q.ev if e.k == "ret"]
    if r and r[-1].val is not None:
        c = inner(r[-1].val)
        v = strip_casts(r[-1].val)
        if c[0] == "call" and isinstance(c[1], str) and (c[1] in RECUR or c[1] in (ARGS, UNION, "str_equal")) and truthy(v, True):
            i = q.index(r[-1])
            out.append((U(resolve(q, i, c[3])), U(resolve(q, i, c[4])), c[1]))
    return out


def accepts(q):
    r = [e for e in q.ev if e.k == "ret"]
    if not r or r[-1].val is None:
        return None
    k = const(r[-1].val)
    return True if k is None else bool(k)


def sides(a0, a1, pair):
    """chains of the two sides if one is rooted in dst and the other in src"""
    x, y, how = pair
    bx, by = base(x), base(y)
    if bx == a0 and by == a1:
        return chain(x), chain(y)
    if bx == a1 and by == a0:
        return chain(y), chain(x)
    return None


def covered(q, parts, prefix, eqs, how=None):
    """components of `parts` (member paths under prefix) without an equality on the path"""
    have = {a for a, b in eqs if a == b}
    miss = []
    bd = {chain(k): v for k, v in bounds(q).items()}
    for part in parts:
        if "[]" not in part:
            if prefix + part not in have:
                miss.append(part)
            continue
        lst, rest = part.split("[]")
        if prefix + lst + ".length" not in have:
            miss.append(lst + " length")
        n = 0
        while prefix + "%s[%d]%s" % (lst, n, rest) in have:
            n += 1
        b = bd.get(prefix + lst) or bd.get(prefix + lst + ".length")
        if b is None or b[1] is None or b[1] > n:
            miss.append(part + " (element %d)" % n)
    return miss


def compare(c, p):
    T = {k: v for k, v in ENUM.items() if k.startswith("TYPE_")}
    for kind, (st, parts) in PARTS.items():
        mem = {m[0] for m in p.structs[st]["m"]}
        for part in parts:
            c.need(re.split(r"\[", part)[0] in mem, "%s has no member %s" % (st, part))
        extra = mem - {re.split(r"\[", x)[0] for x in parts} - META
        if extra:
            c.notes.append("%s: members not treated as components: %s" % (st, ", ".join(sorted(extra))))
    f = p.need("type_compare_visited")
    c.unit(f.name)
    a0, a1 = ("a", 0), ("a", 1)
    pure = {g.name for g in p.unique()}
    stop = RECUR | {ARGS, UNION, "ct_list_value", "type_format", "ident_is_generics_param"}
    local = lambda g: g.internal and g.file == f.file and g.name not in stop
    seen = set()
    composite = {T[k]: k for k in PARTS}
    for q in Walker(p, vn=True, inline=local, pure=pure, loops=2, max_paths=60000).paths(f):
        if q.dead or not accepts(q) or contradictory(q):
            continue
        eqs = [s for s in (sides(a0, a1, x) for x in equalities(q)) if s]
        names = {a for a, b in eqs if a == b}
        dk = {const(b) if const(b) is not None else const(a) for pred, a, b, e in known(q) if pred == "eq" for x in (a, b) if chain(x) == "kind" and base(x) == a0}
        sk = {const(b) if const(b) is not None else const(a) for pred, a, b, e in known(q) if pred == "eq" for x in (a, b) if chain(x) == "kind" and base(x) == a1}
        dk.discard(None), sk.discard(None)
        tr = q.trace()
        # wildcards: only for the builtin placeholder types
        wild = None
        for x, y, how in equalities(q):
            for s, t in ((x, y), (y, x)):
                if how in ("str_equal", "strcmp") and chain(s) == "ident" and base(s) == a0 and t[0] == "s":
                    wild = t[1]
        if wild is not None:
            builtin = any(pred == "eq" and chain(x) == "ident_kind" and base(x) == a0 and const(y) == ENUM["TYPE_IDENT_BUILTIN"] for pred, a, b, e in known(q) for x, y in ((a, b), (b, a)))
            need = {"integer_t": "is_integer", "floater_t": "is_float"}.get(wild)
            ok = wild == "all_t" or (wild == "fn_t" and sk == {T["TYPE_FN"]})
            if need:
                ok = any(e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == need and base(inner(e.cond)[3]) == a1 and truthy(e.cond, e.truth) for e in q.ev)
            if builtin and ok:
                seen.add("wild")
                c.ok("compare", f.name)
                continue
        if dk == {T["TYPE_PTR"]} and sk == {T["TYPE_NULL"]}:
            c.ok("compare", f.name)
            continue
        if dk == {T["TYPE_PTR"]} and sk == {T["TYPE_REF"]}:
            seen.add("ptr")
            c.check("compare", f.name, "value.value_type" in names, "ptr-ref", q.end_loc(), "a reference is accepted for a pointer although the types they point to were not compared", tr)
            continue
        gen = [e for e in q.ev if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "ident_is_generics_param" and base(inner(e.cond)[3]) == a0 and truthy(e.cond, e.truth)]
        if gen:
            c.check("compare", f.name, "ident" in names, "param", q.end_loc(), "two different type parameters are treated as the same type", tr)
            continue
        nominal = any(pred == "eq" and chain(x) == "ident_kind" and const(y) == ENUM["TYPE_IDENT_DEF"] for pred, a, b, e in known(q) for x, y in ((a, b), (b, a)) if base(x) in (a0, a1))
        union_def = any(pred == "eq" and chain(x) == "kind" and const(y) == T["TYPE_UNION"] for pred, a, b, e in known(q) for x, y in ((a, b), (b, a)) if base(x) in (a0, a1))
        if (nominal and not union_def) or dk == {T["TYPE_INTERFACE"]} or ("ident" in names and "args" in names):
            seen.add("nominal")
            args = any(s == ("args", "args") for s in eqs)
            c.check("compare", f.name, "ident" in names and args, "nominal", q.end_loc(), "named types are accepted without comparing %s" % ("their arguments" if "ident" in names else "their names"), tr)
            continue
        c.check("compare", f.name, "kind" in names or (dk and dk == sk), "kind", q.end_loc(), "types are accepted although their kinds were not compared", tr)
        if T["TYPE_ANY"] in dk:
            continue
        ks = [composite[k] for k in dk if k in composite]
        if not ks:
            # the path must have excluded every kind that has components
            ne = {const(b) for pred, a, b, e in known(q) if pred == "ne" and chain(a) == "kind" and base(a) in (a0, a1)}
            lack = [n for v, n in composite.items() if v not in ne and v not in (dk | sk)] if not dk else []
            if T["TYPE_INTERFACE"] not in ne and not dk:
                lack.append("TYPE_INTERFACE")
            c.check("compare", f.name, not lack, "leaf|" + ",".join(sorted(lack)), q.end_loc(), "types of kind %s are accepted without comparing any component" % ", ".join(sorted(lack)), tr)
            continue
        seen.add(ks[0])
        if ks[0] == "TYPE_UNION":
            both = {(x, y) for x, y, how in equalities(q) if how == UNION}
            bx = {(base(x), base(y)) for x, y in both}
            pair = pair_visited(q)
            if not pair:
                c.check("compare", f.name, (a0, a1) in bx and (a1, a0) in bx, "union-sides", q.end_loc(), "unions inside another type are treated as equal although only one direction of inclusion was compared", tr)
            else:
                c.ok("compare", f.name)
            continue
        st, parts = PARTS[ks[0]]
        miss = covered(q, parts, "value.", eqs)
        c.check("compare", f.name, not miss, "%s|%s" % (ks[0], re.sub(r" \(.*", "", miss[0]) if miss else ""), q.end_loc(),
                "%s types are treated as equal although %s was not compared" % (ks[0][5:].lower(), ", ".join(miss)), tr)
        c.ok("compare", f.name, len(parts))
    c.need(seen >= set(PARTS) | {"wild", "ptr", "nominal"}, "comparison cases found: %s" % sorted(seen))
    # arguments of generic types: element by element
    f = p.need(ARGS)
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=2).paths(f):
        if q.dead or not accepts(q):
            continue
        eqs = [s for s in (sides(a0, a1, x) for x in equalities(q)) if s]
        have = {a for a, b in eqs if a == b}
        # loop bound: how many elements the path may leave uncompared
        k = 0
        while "[%d]" % k in have:
            k += 1
        lens = length_known(q, a0, a1)
        n += 1
        c.check("args", f.name, lens is not None and lens <= k, "element", q.end_loc(), "type arguments are treated as equal although argument %d was not compared" % k, q.trace())
        zero = null_lists(q)
        eq = any(a == b == "length" for a, b in eqs) or zero == {0, 1} or any(a in ("length", "") and b in ("length", "") for a, b in eqs) or same_len(q, a0, a1, zero)
        c.check("args", f.name, eq, "length", q.end_loc(), "argument lists of different length are treated as equal", q.trace())
    c.need(n >= 3, "argument comparison paths: %d" % n)
    # union inclusion: every source element has an equal destination element
    f = p.need(UNION)
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=2).paths(f):
        if q.dead or not accepts(q) or contradictory(q):
            continue
        n += 1
        found = set()
        for x, y, how in equalities(q):
            for s, t in ((x, y), (y, x)):
                if how in RECUR and base(s) == a1 and base(t) == a0:
                    m = re.match(r"elements\[(\d+)\]$", chain(s))
                    if m:
                        found.add(int(m.group(1)))
        b = [v for k2, v in bounds(q).items() if base(k2) == a1]
        k = 0
        while k in found:
            k += 1
        c.check("union", f.name, b and b[0][1] is not None and b[0][1] <= k, "element", q.end_loc(), "a union is accepted although its element %d was not found in the other" % k, q.trace())
    c.need(n >= 3, "union comparison paths: %d" % n)
    # the entry point: inclusion is enough only between the unions themselves
    f = p.need("type_compare")
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead or not accepts(q):
            continue
        n += 1
        eq = [x for x in equalities(q)]
        ok = any(base(x) == a0 and base(y) == a1 and (how == "type_compare_visited" and chain(x) == "" or how == UNION and chain(x) == "value") for x, y, how in eq)
        c.check("entry", f.name, ok, "delegates", q.end_loc(), "the comparison accepts without comparing the two types", q.trace())
    f = p.need("type_compare_no_ident")
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead or not accepts(q):
            continue
        eq = [x for x in equalities(q)]
        c.check("entry", f.name, any(how in RECUR and base(x) == a0 and base(y) == a1 for x, y, how in eq), "delegates", q.end_loc(), "the comparison accepts without comparing the two types", q.trace())
    # recursion through a visited set: only a pair of types may stand for its own comparison
    for g in p.unique(lambda g: g.file == f.file and g.name in ("type_compare_visited", UNION, ARGS)):
        for q in Walker(p, vn=True, inline=lambda h: False, pure=pure, loops=1, max_paths=60000).paths(g):
            if q.dead or not accepts(q):
                continue
            for e in q.ev:
                if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "table_exist" and truthy(e.cond, e.truth):
                    key = inner(e.cond)[4]
                    b = {base(z) for z in subexprs(U(key)) if z[0] == "ld"}
                    c.check("visited", g.name, a0 in b and a1 in b, "key", e.loc, "a comparison already under way is taken as equal although only one of the two types is the same", q.trace())


def pair_visited(q):
    return any(e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "table_exist" and truthy(e.cond, e.truth) for e in q.ev)


def null_lists(q):
    return {x[1] for pred, a, b, e in known(q) if pred == "eq" for x, y in ((strip_casts(a), strip_casts(b)),) if x[0] == "a" and is_null(y)}


def length_known(q, a0, a1):
    """upper bound the path puts on the common length of the two lists"""
    z = null_lists(q)
    if z:
        return 0
    his = [hi for k, (lo, hi) in bounds(q).items() if base(k) in (a0, a1) and hi is not None]
    return min(his) if his else None


def same_len(q, a0, a1, zero):
    b = bounds(q)
    for i, j in ((0, 1), (1, 0)):
        if i in zero:
            for k, (lo, hi) in b.items():
                if base(k) == ("a", j) and hi == 0:
                    return True
            # compared with the constant zero
            for pred, x, y, e in known(q):
                if pred == "eq" and {const(x), const(y)} & {0} and any(base(z) == ("a", j) for z in (x, y)):
                    return True
    return False


# ---------------------------------------------------------------- run-time identity

def identity(c, p):
    T = {k: v for k, v in ENUM.items() if k.startswith("TYPE_")}
    composite = {T[k]: k for k in PARTS}
    f = p.need("type_hash")
    c.unit(f.name)
    a0 = ("a", 0)
    pure = {g.name for g in p.unique()}
    first = {}      # kind -> text its identity starts with
    flags = {}      # (flag, truth) -> identities
    seen = set()
    local = lambda g: g.internal and g.file == f.file and g.name not in ("type_hash",) and not g.name.startswith("rtype")
    for q in Walker(p, vn=True, inline=local, pure=pure, loops=2, max_paths=60000).paths(f):
        if q.dead or contradictory(q):
            continue
        r = [e for e in q.ev if e.k == "ret"]
        v = arms(U(r[-1].val))
        tr = q.trace()
        loc = q.end_loc()
        c.check("identity", f.name, v[0] == "call" and v[1].startswith("hash"), "hashed", loc, "the identity of a type is not computed from a description of the type", tr)
        ment = set()
        for z in subexprs(v):
            if z[0] == "call" and z[1] == "type_hash":
                ment.add(chain(z[3]))
            if z[0] == "ld":
                ment.add(chain(z))
        fmts = [z[1] for z in subexprs(v) if z[0] == "s"]
        for s in fmts:
            c.check("identity", f.name, not re.search(r"%l*[du]%l*[du]", s), "separator|" + s, loc, "two parts run together in the description %r" % s, tr)
        dk = {const(b) for pred, a, b, e in known(q) if pred == "eq" and chain(a) == "kind" and base(a) == a0 and const(b) is not None}
        named = any(pred == "eq" and chain(a) == "ident_kind" and const(b) is not None for pred, a, b, e in known(q))
        if named:
            seen.add("named")
            b = [(lo, hi) for k, (lo, hi) in bounds(q).items() if chain(k) == "args"]
            none = any(pred == "eq" and chain(a) == "args" and is_null(b2) for pred, a, b2, e in known(q))
            k = 0
            while "args[%d]" % k in ment:
                k += 1
            ok = "ident" in ment and (none or (b and b[0][1] is not None and b[0][1] <= k))
            c.check("identity", f.name, ok, "named", loc, "named types that differ in %s have the same identity" % ("argument %d" % k if "ident" in ment else "their names"), tr)
            continue
        ks = [composite[k] for k in dk if k in composite]
        if not ks:
            lit = [e for e in q.ev if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "is_origin_kind" and truthy(e.cond, e.truth)]
            ne = {const(b) for pred, a, b, e in known(q) if pred == "ne" and chain(a) == "kind"}
            if not dk:
                lack = [] if lit else [n for v2, n in composite.items() if v2 not in ne]
                c.check("identity", f.name, not lack, "leaf|" + ",".join(sorted(lack)), loc, "types of kind %s share one identity" % ", ".join(sorted(lack)), tr)
                c.check("identity", f.name, "kind" in ment or any(chain(z) .endswith("kind") for z in subexprs(v) if z[0] == "ld") or kind_indexed(v), "leaf-kind", loc, "basic types of different kinds share one identity", tr)
            else:
                for k in dk:
                    first.setdefault(k, set()).add(head(v))
            continue
        kind = ks[0]
        seen.add(kind)
        first.setdefault(T[kind], set()).add(head(v))
        st, parts = PARTS[kind]
        if kind == "TYPE_STRUCT" and "ident" in ment:
            c.ok("identity", f.name)
            continue
        miss = []
        bd = {chain(k): b for k, b in bounds(q).items()}
        for part in parts:
            if part in FLAGS:
                for pred, x, y, e in known(q):
                    pass
                t = flag_truth(q, part)
                if "value." + part in ment:
                    flags.setdefault((part, None), set()).add(1)
                elif t is not None:
                    flags.setdefault((part, t), set()).add(repr(v))
                else:
                    miss.append(part)
                continue
            if "[]" not in part:
                if "value." + part not in ment:
                    miss.append(part)
                continue
            lst, rest = part.split("[]")
            n = 0
            while "value.%s[%d]%s" % (lst, n, rest) in ment:
                n += 1
            b = bd.get("value." + lst)
            if b is None or b[1] is None or b[1] > n:
                miss.append("%s (element %d)" % (part, n))
        c.check("identity", f.name, not miss, "%s|%s" % (kind, re.sub(r" \(.*", "", miss[0]) if miss else ""), loc,
                "%s types that differ in %s have the same identity" % (kind[5:].lower(), ", ".join(miss)), tr)
        c.ok("identity", f.name, len(parts))
    for fl in sorted(FLAGS):
        if (fl, None) in flags:
            c.ok("identity", f.name)
            continue
        same = flags.get((fl, True), set()) & flags.get((fl, False), set())
        c.check("identity", f.name, not same and (fl, True) in flags, "flag|" + fl, f.loc, "function types that differ in %s have the same identity" % fl)
    inv = {v: k for k, v in T.items()}
    ks = sorted(first)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            clash = {x for x in first[a] for y in first[b] if x is not None and y is not None and x == y}
            c.check("identity", f.name, not clash, "prefix|%s|%s" % (inv.get(a, a), inv.get(b, b)), f.loc,
                    "the descriptions of %s and %s types start alike (%r), so different types can share an identity" % (inv.get(a, a), inv.get(b, b), sorted(clash)[:1]))
    c.need(seen >= set(PARTS) | {"named"}, "identity cases found: %s" % sorted(seen))


def arms(e):
    """a choice between equal values is no choice"""
    if not isinstance(e, tuple):
        return e
    e = tuple(arms(x) for x in e)
    if e and e[0] == "sel" and len(e) >= 4 and e[2] == e[3]:
        return e[2]
    return e


def kind_indexed(v):
    return any(z[0] == "idx" and any(key_of(w) and key_of(w)[1] == "kind" for w in subexprs(z[2])) for z in subexprs(v))


def flag_truth(q, name):
    for e in q.ev:
        if e.k == "assume":
            x = strip_casts(e.cond)
            y, t = x, bool(e.truth)
            while y[0] == "not" or (y[0] == "cmp" and y[1] in ("eq", "ne") and const(y[3]) == 0):
                if y[0] == "not" or y[1] == "eq":
                    t = not t
                y = strip_casts(y[1] if y[0] == "not" else y[2])
            if y[0] == "ld" and chain(y) == "value." + name:
                return t
    return None


def head(v):
    """the literal text the description starts with"""
    v = strip_casts(v)
    while v[0] == "call":
        if v[1] in ("dsprintf", "hash_string", "str_connect", "strdup") or v[1].startswith("hash"):
            fmt = strip_casts(v[3])
            if fmt[0] == "s" and fmt[1].startswith("%s") and len(v) > 4:
                # a flag chosen by the caller
                n = 4
                out = ""
                rest = fmt[1]
                while rest.startswith("%s") and n < len(v):
                    a = strip_casts(v[n])
                    if a[0] != "s":
                        return out or None
                    out += a[1]
                    rest = rest[2:]
                    n += 1
                return re.match(r"[a-z_]*", out).group(0)
            v = fmt
            continue
        return None
    return re.match(r"[a-z_]*", v[1]).group(0) if v[0] == "s" else None


# ---------------------------------------------------------------- typed positions

def kindnew(*names):
    def f(q, o, p):
        return o[0] == "call" and o[1].name == "type_kind_new" and const(o[1].args[1]) in {ENUM[n] for n in names}
    f.text = "the type " + "/".join(n[5:].lower() for n in names)
    return f


def at(*suffix):
    def f(q, o, p):
        return o[0] == "at" and any(chain(o[1]) == s or chain(o[1]).endswith("." + s) or chain(o[1]).endswith(s) and s[0] in "[<" for s in suffix)
    f.text = " or ".join(suffix)
    return f


def call(*names):
    def f(q, o, p):
        return o[0] == "call" and o[1].name in names
    f.text = "the result of " + "/".join(names)
    return f


def declared(q, o, p):
    return o[0] == "at" and fld_type(o[1]) and base(o[1])[0] == "call" and base(o[1])[1] == "type_struct_property"


declared.text = "the type the structure declares for the field"


def fld_type(e):
    return chain(e).endswith(".type")


def anyof(*fs):
    def f(q, o, p):
        return any(x(q, o, p) for x in fs)
    f.text = " or ".join(x.text for x in fs)
    return f


def arg(i):
    def f(q, o, p):
        return o[0] == "at" and strip_casts(o[1]) == ("a", i)
    f.text = "the expected type"
    return f


UNK = kindnew("TYPE_UNKNOWN")
INT = anyof(call("type_integer_t_new"), kindnew("TYPE_INT"))
BOOL = kindnew("TYPE_BOOL")
# (function, position, what its expected type must be, how often: "always" / "list" / "if")
POS = [
    ("infer_if", "condition", BOOL, "always"),
    ("infer_for_cond_stmt", "condition", BOOL, "always"),
    ("infer_for_tradition", "cond", BOOL, "always"),
    ("infer_return", "expr", at("current_fn.return_type"), "set"),
    ("infer_assign", "right", call("infer_left_expr"), "always"),
    ("infer_vardef", "right", anyof(at("var_decl.type"), call("reduction_type")), "always"),
    ("infer_global_assign", "right", anyof(at("var_decl.type"), call("reduction_type")), "always"),
    ("infer_throw", "error", call("interface_throwable"), "always"),
    ("infer_ternary", "consequent", None, "always"),
    ("infer_ternary", "alternate", call("infer_right_expr"), "always"),
    ("infer_ternary", "condition", UNK, "always"),
    ("infer_vec_slice", "start", INT, "always"),
    ("infer_vec_slice", "end", INT, "always"),
    ("infer_binary", "left", None, "always"),
    ("infer_binary", "right", None, "always"),
    ("infer_vec_new", "value.elements[]", anyof(at("element_type"), call("infer_right_expr"), arg(4)), "list"),
    ("infer_set_new", "elements[]", anyof(at("element_type"), call("infer_right_expr")), "list"),
    ("infer_map_new", "elements[].key", anyof(at("key_type"), call("infer_right_expr"), kindnew("TYPE_STRING")), "list"),
    ("infer_map_new", "elements[].value", anyof(at("value_type"), call("infer_right_expr"), arg(4)), "list"),
    ("infer_tuple_new", "elements[]", None, "list"),
    ("infer_struct_properties", "[].right", declared, "list"),
    ("infer_call_args", "args[]", None, "list"),
]


def positions(c, p):
    global SRET
    SRET |= {g.name for g in p.unique() if g.sret}
    pure = {g.name for g in p.unique()}
    done = {}
    for fn, pos, want, how in POS:
        if fn not in done:
            f = p.need(fn)
            c.unit(fn)
            done[fn] = (f, [q for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=2 if fn != "infer_call_args" and any(x[0] == fn and x[3] == "list" for x in POS) else 1, max_paths=120000).paths(f)
                             if not q.dead and not diagnosed(q) and not contradictory(q) and not assumed_known(q, p)])
        f, paths = done[fn]
        n = 0
        rx = re.compile("^" + re.escape(pos).replace(r"\[\]", r"\[(\d+)\]") + "$")
        for q in paths:
            if q.ev[-1].k != "ret":
                continue
            got = {}
            for i, e in enumerate(q.ev):
                if e.k != "call" or e.name not in ("infer_right_expr", "infer_global_expr"):
                    continue
                m = rx.match(chain(e.args[2]))
                if not m:
                    continue
                n += 1
                k = int(m.group(1)) if m.groups() else 0
                o = origin(q, i, e.args[3])
                u = UNK(q, o, p)
                if want is not None:
                    first = how == "list" and u and k == 0
                    c.check("position", fn, want(q, o, p) or first, "%s|%s" % (fn, pos), e.loc, "`%s` is not checked against %s" % (pos, want.text), q.trace())
                if not (how == "list" and u and want is not None):
                    got.setdefault(k, []).append((o, e))
            if how == "always":
                c.check("position", fn, 0 in got, "%s|%s|never" % (fn, pos), q.end_loc(), "a path of %s never checks `%s`" % (fn, pos), q.trace())
            elif how == "set":
                null = any(pred == "eq" and chain(a) == pos and is_null(b) for pred, a, b, e in known(q))
                if null:
                    void = any(pred == "eq" and chain(a).endswith("kind") and const(b) == ENUM["TYPE_VOID"] for pred, a, b, e in known(q))
                    c.check("position", fn, void, "%s|%s|void" % (fn, pos), q.end_loc(), "a missing value is accepted where a value is expected", q.trace())
                else:
                    c.check("position", fn, 0 in got, "%s|%s|never" % (fn, pos), q.end_loc(), "a path of %s never checks `%s`" % (fn, pos), q.trace())
            elif how == "list":
                lst = pos.split("[]")[0]
                b = [v for k2, v in bounds(q).items() if chain(k2) == lst]
                k = 0
                while k in got:
                    k += 1
                c.check("position", fn, b and b[0][1] is not None and b[0][1] <= k, "%s|%s|element" % (fn, pos), q.end_loc(), "element %d of `%s` is not checked" % (k, lst), q.trace())
        c.need(n >= 1, "no check of %s in %s" % (pos, fn))
    special(c, p, done)


def diagnosed(q):
    return any(e.k == "call" and e.name == "dump_errorf" for e in q.ev)


def assumed_known(q, p):
    """the path assumed that a type is not unknown, although it was just set to unknown: not a real path"""
    unk = ENUM["TYPE_UNKNOWN"]
    for pred, a, b, e in known(q):
        if pred == "ne" and const(b) == unk:
            a = strip_casts(a)
            if a[0] == "ld" and strip_casts(a[1])[0] == "fld" and strip_casts(a[1])[3] == "kind":
                if UNK(q, origin(q, q.index(e), strip_casts(a[1])[1]), p):
                    return True
    return False


def special(c, p, done):
    T = ENUM
    # operands of a binary operation agree
    f, paths = done["infer_binary"]
    n = 0
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        n += 1
        L = R = None
        ok = False
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "infer_right_expr":
                if chain(e.args[2]) == "left":
                    L = e
                if chain(e.args[2]) == "right":
                    R = e
            if e.k == "assume":
                x = inner(e.cond)
                if x[0] == "call" and x[1] == "type_compare" and truthy(e.cond, e.truth):
                    os_ = [origin(q, i, x[3]), origin(q, i, x[4])]
                    ok |= all(o[0] == "call" for o in os_) and {id(o[1]) for o in os_} == {id(L), id(R)}
        c.check("position", f.name, ok, "binary", q.end_loc(), "an operation on operands of different types is accepted", q.trace())
    c.need(n >= 2, "accepted binary operations: %d" % n)
    # operand kinds of an operation
    c.need(any(True for q in paths), "binary")
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        for name, kinds in (("is_bool_operand_operator", None), ("is_integer_operator", "is_integer")):
            on = [e for e in q.ev if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == name and truthy(e.cond, e.truth)]
            if not on:
                continue
            if kinds is None:
                got = {U(a) for pred, a, b, e in known(q) if pred == "eq" and const(b) == T["TYPE_BOOL"]}
            else:
                got = {U(inner(e.cond)[3]) for e in q.ev if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == kinds and truthy(e.cond, e.truth)}
            c.check("position", f.name, len(got) >= 2, "operand|" + name, q.end_loc(), "an operator is accepted on operands of a kind it is not defined for", q.trace())
    # the condition of a ternary has a kind that can be tested
    f, paths = done["infer_ternary"]
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        ok = {const(b) for pred, a, b, e in known(q) if pred == "eq" and fname(a) == "kind"} & {T["TYPE_BOOL"], T["TYPE_PTR"], T["TYPE_ANYPTR"]}
        c.check("position", f.name, ok, "ternary", q.end_loc(), "a condition that is neither a truth value nor a pointer is accepted", q.trace())
        same = any(e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "type_compare" and truthy(e.cond, e.truth) for e in q.ev)
        c.check("position", f.name, same, "ternary-branches", q.end_loc(), "branches of different types are accepted", q.trace())
    # throw only where the function may fail
    f, paths = done["infer_throw"]
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        ok = any(e.k == "assume" and any(z[0] == "ld" and (key_of(z) or (0, 0))[1] == "is_errable" for z in subexprs(e.cond)) and truthy(e.cond, e.truth) for e in q.ev)
        c.check("position", f.name, ok, "throw", q.end_loc(), "an error is thrown from a function that cannot fail", q.trace())
    # arguments
    f, paths = done["infer_call_args"]
    n = 0
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev) or contradictory(q):
            continue
        rest = flag(q, "is_rest")
        var = flag(q, "is_c_variadic")
        la, lp = ("ld", ("fld", ("ld", ("fld", ("a", 1), "ast_call_t", "args"), 0), "list_t", "length"), 0), ("ld", ("fld", ("ld", ("fld", ("a", 2), "type_fn_t", "param_types"), 0), "list_t", "length"), 0)
        rel = {"gt": None, "lt": None}
        for pred, a, b, e in known(q):
            x, y = chain(a), chain(b)
            ps = {pred}
            if (x, y) == ("param_types.length", "args.length"):
                x, y = y, x
                pred = {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}.get(pred, pred)
            if (x, y) == ("args.length", "param_types.length"):
                if pred[1:] in ("le", "lt") or pred == "eq":
                    rel["gt"] = False
                if pred[1:] in ("ge", "gt") or pred == "eq":
                    rel["lt"] = False
        c.check("position", f.name, rel["gt"] is False or rest is True or var is True, "args-many", q.end_loc(), "surplus arguments are accepted", q.trace())
        c.check("position", f.name, rel["lt"] is False or rest is True, "args-few", q.end_loc(), "missing arguments are accepted", q.trace())
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name == "infer_right_expr":
                m = re.match(r"args\[(\d+)\]$", chain(e.args[2]))
                if not m:
                    continue
                n += 1
                o = origin(q, i, e.args[3])
                if o[0] == "at" and strip_casts(o[1])[0] == "call" and strip_casts(o[1])[1] == "select_fn_param":
                    s = strip_casts(o[1])
                    c.check("position", f.name, strip_casts(s[3]) == ("a", 2) and const(s[4]) == int(m.group(1)), "args-index", e.loc, "argument %s is checked against another parameter" % m.group(1), q.trace())
                else:
                    c.check("position", f.name, var is True, "args-unchecked", e.loc, "argument %s is not checked against the parameter's type" % m.group(1), q.trace())
    c.need(n >= 10, "checked arguments: %d" % n)
    # index and key expressions
    f = p.need("infer_access_expr")
    c.unit(f.name)
    pure = {g.name for g in p.unique()}
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead or any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        dk = {const(b) for pred, a, b, e in known(q) if pred == "eq" and chain(a).endswith("kind") and const(b) is not None}
        keys = [(i, e) for i, e in enumerate(q.ev) if e.k == "call" and e.name == "infer_right_expr" and chain(e.args[2]).endswith("key")]
        c.check("position", f.name, bool(keys), "access", q.end_loc(), "an index or key is accepted unchecked", q.trace())
        for i, e in keys:
            o = origin(q, i, e.args[3])
            n += 1
            if T["TYPE_MAP"] in dk:
                c.check("position", f.name, at("key_type")(q, o, p), "access-map", e.loc, "a key is not checked against the map's key type", q.trace())
            else:
                c.check("position", f.name, INT(q, o, p), "access-index", e.loc, "an index is not checked to be an integer", q.trace())
    c.need(n >= 3, "index positions: %d" % n)
    # negation
    f = p.need("infer_unary")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead or any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        ops = {const(b) for pred, a, b, e in known(q) if pred == "eq" and chain(a) == "op"}
        if len(ops) > 1 or ops & {const(b) for pred, a, b, e in known(q) if pred == "ne" and chain(a) == "op"}:
            continue        # the operator does not change while its operand is examined
        t = [(i, e) for i, e in enumerate(q.ev) if e.k == "call" and e.name == "infer_right_expr"]
        c.check("position", f.name, len(t) >= 1, "unary", q.end_loc(), "the operand of a unary operation is not checked", q.trace())
        if T["AST_OP_NOT"] in ops:
            c.check("position", f.name, BOOL(q, origin(q, t[0][0], t[0][1].args[3]), p), "not", q.end_loc(), "! is accepted on a value that is not a truth value", q.trace())
        elif T["AST_OP_NEG"] in ops:
            ok = any(e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "is_number" and truthy(e.cond, e.truth) for e in q.ev)
            c.check("position", f.name, ok, "neg", q.end_loc(), "- is accepted on a value that is not a number", q.trace())
        elif T["AST_OP_IA"] in ops:
            ok = {const(b) for pred, a, b, e in known(q) if pred == "eq" and fname(a) == "kind"} & {T["TYPE_REF"], T["TYPE_PTR"]}
            c.check("position", f.name, ok, "deref", q.end_loc(), "a value that is not a pointer is dereferenced", q.trace())
    # tuple destructuring: a tuple, of the same arity
    f = p.need("infer_var_tuple_destr")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead or any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        eq = any(pred == "eq" and {chain(a), chain(b)} == {"elements.length", "value.elements.length"} for pred, a, b, e in known(q))
        c.check("position", f.name, eq, "destr-length", q.end_loc(), "a tuple is taken apart into a different number of variables", q.trace())
        tup = any(pred == "eq" and chain(a) == "kind" and const(b) == T["TYPE_TUPLE"] for pred, a, b, e in known(q))
        c.check("position", f.name, tup, "destr-kind", q.end_loc(), "a value that is not a tuple is taken apart", q.trace())
    # array literals do not exceed the array
    f, paths = done["infer_vec_new"]
    for q in paths:
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev) or contradictory(q):
            continue
        if not any(pred == "eq" and chain(a) == "kind" and base(a) == ("a", 3) and const(b) == T["TYPE_ARR"] for pred, a, b, e in known(q)):
            continue
        empty = any(hi == 0 for k, (lo, hi) in bounds(q).items() if chain(k) == "value.elements")
        fit = any(pred in ("ule", "sle", "eq", "ult", "slt") and chain(a) == "value.elements.length" and chain(b).endswith("length") or
                  pred in ("uge", "sge", "eq", "ugt", "sgt") and chain(b) == "value.elements.length" and chain(a).endswith("length") for pred, a, b, e in known(q))
        c.check("position", f.name, empty or fit, "array-length", q.end_loc(), "an array literal with more elements than the array is accepted", q.trace())
    # the general position
    f = p.need("infer_right_expr")
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1, max_paths=60000).paths(f):
        if q.dead or any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        n += 1
        unk = any(pred == "eq" and fname(a) == "kind" and const(b) == T["TYPE_UNKNOWN"] for pred, a, b, e in known(q))
        cmp_ = False
        for i, e in enumerate(q.ev):
            if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "type_compare" and truthy(e.cond, e.truth):
                x = inner(e.cond)
                cmp_ |= base(x[3]) == ("a", 3) or "target_type" in chain(x[3]) or strip_casts(x[3])[0] == "al"
        c.check("position", f.name, unk or cmp_, "right", q.end_loc(), "an expression is accepted where another type is expected", q.trace())
        into = any(e.k == "call" and e.name == "ast_type_as" for e in q.ev)
        uni = any(pred == "eq" and fname(a) == "kind" and const(b) == T["TYPE_UNION"] for pred, a, b, e in known(q))
        if into and uni:
            has = any(e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "union_type_contains" and truthy(e.cond, e.truth) for e in q.ev)
            anyk = any(pred == "eq" and fname(a) == "kind" and const(b) == T["TYPE_ANY"] for pred, a, b, e in known(q))
            c.check("position", f.name, has or anyk, "right-union", q.end_loc(), "a value is stored in a union that does not contain its type", q.trace())
    c.need(n >= 3, "accepting paths of the general position: %d" % n)
    # calls: fallible and impure functions only where allowed
    f = p.need("infer_call")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead:
            continue
        c.check("position", f.name, any(e.k == "call" and e.name == "infer_call_args" for e in q.ev), "call-args", q.end_loc(), "the arguments of a call are not checked", q.trace())
        if any(e.k == "call" and e.name == "dump_errorf" for e in q.ev):
            continue
        err = [e for e in q.ev if e.k == "assume" and any(z[0] == "ld" and (key_of(z) or (0, 0)) == ("type_fn_t", "is_errable") for z in subexprs(e.cond)) and truthy(e.cond, e.truth)]
        chk = [e for e in q.ev if e.k == "assume" and inner(e.cond)[0] in ("a", "cast") and truthy(e.cond, e.truth)]
        if err and any(strip_casts(inner(e.cond)) == ("a", 4) or base(inner(e.cond)) == ("a", 4) for e in chk):
            ok = False
            for pred, a, b, e in known(q):
                a = strip_casts(a)
                k = (key_of(a) if a[0] == "ld" else None) or ("", "")
                ok |= k[0] != "type_fn_t" and k[1] in ("is_errable", "be_caught") and ((pred in ("ne", "sgt", "ugt") and const(b) == 0) or (pred in ("sge", "uge") and const(b) == 1))
            c.check("position", f.name, ok, "call-errable", q.end_loc(), "a call that may fail is accepted where its error has nowhere to go", q.trace())
    # interface implementations: signatures agree
    f = p.need("interface_check_typedef_impl")
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=2).paths(f):
        if q.dead or any(e.k == "call" and e.name == "dump_errorf" for e in q.ev) or contradictory(q):
            continue
        his = [hi for k, (lo, hi) in bounds(q).items() if chain(k).endswith("elements")]
        cm = set()
        for i, e in enumerate(q.ev):
            if e.k == "assume" and inner(e.cond)[0] == "call" and inner(e.cond)[1] == "type_compare" and truthy(e.cond, e.truth):
                m = re.search(r"elements\[(\d+)\]", chain(inner(e.cond)[3])) or re.search(r"elements\[(\d+)\]", chain(inner(e.cond)[4]))
                o = [origin(q, i, inner(e.cond)[j]) for j in (3, 4)]
                if m and any(x[0] == "call" and x[1].name == "interface_extract_fn_type" for x in o):
                    cm.add(int(m.group(1)))
        k = 0
        while k in cm:
            k += 1
        if his:
            n += 1
            c.check("impl", f.name, min(h if h is not None else 99 for h in his) <= k, "method", q.end_loc(), "method %d of an interface is not compared with the implementation" % k, q.trace())
    c.need(n >= 2, "interface implementation paths: %d" % n)
    f = p.need("interface_extract_fn_type")
    c.unit(f.name)
    st, parts = PARTS["TYPE_FN"]
    need = {"is_rest", "is_errable", "is_fx", "return_type"}
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead:
            continue
        w = set()
        for e in q.ev:
            if e.k == "store" and addr_key(e.addr) and addr_key(e.addr)[0] == st:
                w.add((addr_key(e.addr)[1], fromfn(e.val)))
            if e.k == "call" and is_copy(e) and addr_key(e.args[0]) and addr_key(e.args[0])[0] == st:
                w.add((addr_key(e.args[0])[1], True))
            if e.k == "call" and e.name in SRET and addr_key(e.args[0]) and addr_key(e.args[0])[0] == st:
                w.add((addr_key(e.args[0])[1], True))
        for x in sorted(need):
            c.check("impl", f.name, (x, True) in w, "extract|" + x, q.end_loc(), "the signature taken from an implementation leaves out %s" % x, q.trace())


def fromfn(v):
    return any(z[0] == "ld" and (key_of(z) or ("", ""))[0].startswith("ast_fndef") for z in subexprs(v))


def flag(q, name):
    for e in q.ev:
        if e.k == "assume":
            x, t = strip_casts(e.cond), bool(e.truth)
            while x[0] == "not" or (x[0] == "cmp" and x[1] in ("eq", "ne") and const(x[3]) == 0):
                if x[0] == "not" or x[1] == "eq":
                    t = not t
                x = strip_casts(x[1] if x[0] == "not" else x[2])
            if x[0] == "ld" and (key_of(x) or (0, 0)) == ("type_fn_t", name):
                return t
    return None


def errors(c, p):
    """a diagnosis ends the compilation"""
    pure = {g.name for g in p.unique()}
    f = p.need("dump_errorf")
    c.unit(f.name)
    n = 0
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead:
            continue
        n += 1
        look = any(pred == "ne" and fname(a) == "intercept_errors" and is_null(b) for pred, a, b, e in known(q))
        at_ = {fname(e.args[0]) for e in q.ev if e.k == "call" and e.name == "slice_push"}
        end = any(e.k == "call" and e.name in ("dump_errors_exit", "exit", "abort") for e in q.ev)
        c.check("diagnose", f.name, "intercept_errors" in at_ if look else end and "errors" in at_, "ends", q.end_loc(), "a diagnosed program is compiled anyway", q.trace())
    f = p.need("dump_errors_exit")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda g: False, pure=pure, loops=1).paths(f):
        if q.dead:
            continue
        none = any(pred == "eq" and fname(a) == "count" and const(b) == 0 for pred, a, b, e in known(q))
        c.check("diagnose", f.name, none, "exit", q.end_loc(), "the compiler goes on after reporting errors", q.trace())
    c.need(n >= 2, "paths through dump_errorf: %d" % n)


def body(c):
    c.rule("compare", "a path that accepts two types has compared their kinds and every component the type structure of that kind declares, or is one of the language's stated wildcards", 120)
    c.rule("args", "argument lists of named types are equal only if they have the same length and every element is equal", 5)
    c.rule("union", "a union includes another only if each element of the other was found", 3)
    c.rule("entry", "the entry points accept only what the comparison accepts; inclusion of unions suffices only at the top", 3)
    c.rule("visited", "a comparison under way stands for itself only under a key naming both types", 1)
    c.rule("identity", "the run-time identity of a type is computed from its kind and every component, and no two kinds share a description", 150)
    c.rule("position", "every typed position is checked against the type the position demands, for every element, or the program is diagnosed", 400)
    c.rule("impl", "every method of an interface is compared, with its full signature, with the implementation", 8)
    c.rule("diagnose", "a diagnosis ends the compilation", 1)
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    for e in p.enums.values():
        for k, v in e.items():
            ENUM.setdefault(k, v)
    SRET.update(g.name for g in p.unique() if g.sret)
    c.section(compare, c, p)
    c.section(identity, c, p)
    c.section(positions, c, p)
    c.section(errors, c, p)


main("R21", TECH, body)
