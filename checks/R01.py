"""R01: out-of-range element access and slicing raise before memory is touched; storage is never overrun."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from lin import *
from lir import Lir, Op

TECH = ("path-sensitive bounds analysis over LLVM IR: every element copy and element address in the vec runtime is proved inside its storage by "
        "linear entailment from the path's branch conditions and the vec invariant; the code emitted for v[i], a[i] and slices is read off each "
        "lowering path and every flow to the element address must pass the unsigned index<length test")

PURE = {"rt_find_rtype", "rti_array_new", "rti_gc_malloc", "gc_barrier_get", "coroutine_get", "shade_obj_grey", "tlsprintf", "rti_throw", "processor_get",
        "fetch_int_value", "rt_rtype_stack_size"}
RAISE = ("rti_throw", "rti_co_throw")
VEC = "n_vec_t"


def U(e):
    return unversion(strip_all(e))


def body(c):
    c.rule("copy", "every element copy in the vec runtime stays inside the storage it addresses (reads within the length, writes within the capacity)", 8)
    c.rule("index", "an element access addresses exactly the requested index, only if it is in range, and raises otherwise", 4)
    c.rule("slice", "slicing yields exactly [start,end) of the same storage, only for 0<=start<=end<=length, and raises otherwise", 4)
    c.rule("state", "every operation leaves length<=capacity and storage for capacity elements", 8)
    c.rule("size", "a storage size computed from a caller-supplied count cannot wrap around", 2)
    c.rule("sizing", "array storage is allocated for length elements of the element's storage size", 1)
    c.rule("guard", "generated code computes an element address only after the unsigned index<length test succeeded, and raises otherwise", 8)
    c.rule("widen", "a narrow index is widened with the sign of its type before it is compared", 4)
    c.rule("unchecked", "unchecked element addresses are generated only for constant indexes", 3)
    c.rule("access", "v[i], a[i] and their assignments use the checked address with their own operands", 3)
    c.rule("slicecall", "a slice expression calls the checked slice operation with its own operands and tests for the error", 1)
    runtime(c)
    compiler(c)


# ---------------------------------------------------------------------------------------------- runtime
def runtime(c):
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    F = "runtime/nutils/vec.c"
    fns = [g for g in p.unique(lambda g: g.file == F)]
    c.need(len(fns) >= 12, "vec runtime not found")

    def inl(g):
        return g.name not in PURE and (g.file == F or g.name in ("rti_write_barrier_ptr", "rt_vec_slice"))

    cur = [None]

    def nonneg(t):
        if t[0] == "bin" and t[1] in ("sdiv", "udiv", "lshr", "ashr") and (const(t[3]) or 0) > 0:
            return nonneg(strip_casts(t[2]))
        return fname(t) in ("length", "capacity")

    def es(e):
        """storage an element size expression belongs to"""
        return fname(e) in ("element_size", "storage_size")

    def units(e):
        """byte amount -> linear form in elements, or None"""
        t, k = form(e)
        if k:
            return None
        r = ({}, 0)
        for x, n in t.items():
            if es(x):
                r = add(r, ({}, n))
            elif x[0] == "bin" and x[1] == "mul":
                a, b = x[2], x[3]
                if es(b):
                    a, b = b, a
                if not es(a):
                    return None
                f = form(b)
                r = add(r, ({q: v * n for q, v in f[0].items()}, f[1] * n))
            else:
                return None
        return r

    def storage(addr):
        """(base, element offset, kind) of an address into vec storage"""
        t, k = form(addr)
        base = [x for x, n in t.items() if n == 1 and (fname(x) == "data" and key_of(x)[0] == VEC or x[0] == "call" and x[1] == "rti_array_new")]
        if len(base) != 1:
            return None
        rest = dict(t)
        del rest[base[0]]
        off = ({}, 0)
        for x, n in rest.items():
            u = units(x)
            if u is None:
                return base[0], None
            off = add(off, ({a: b * n for a, b in u[0].items()}, u[1] * n))
        if k:
            return base[0], None
        return base[0], off

    def limit(base, write):
        if base[0] == "call":
            return form(base[4])
        v = base[1][1]
        return {("ld", ("fld", v, VEC, "capacity" if write else "length"), 0): 1}, 0

    def facts(q, upto):
        fs = path_facts(q, upto, nonneg)
        # elements that exist fit into memory: a sum of lengths never exceeds MAX / element size
        for pr, l, r, _ in known(q, upto):
            r = strip_casts(r)
            if pr in ("sgt", "ugt") and r[0] == "bin" and r[1] in ("sdiv", "udiv") and form(l)[0] and all(fname(t) == "length" for t in form(l)[0]):
                fs.add(num(-1))
        # invariant of every vec the path reads: length <= capacity
        for e in q.ev[:upto]:
            for x in list(e.args or ()) + [y for y in (e.val, e.cond, e.addr) if y is not None]:
                for t in subexprs(x):
                    if t[0] == "ld" and fname(t) in ("length", "capacity", "data") and key_of(t)[0] == VEC:
                        v = U(t)[1][1]
                        L = ({("ld", ("fld", v, VEC, "length"), 0): 1}, 0)
                        C = ({("ld", ("fld", v, VEC, "capacity"), 0): 1}, 0)
                        fs.add(sub(C, L))
        return fs

    def raises(q):
        return any(e.k == "call" and e.name in RAISE for e in q.ev)

    # value arguments passed by reference are separate objects; a struct passed by value is a local copy
    def walk(g, loops=1):
        cur[0] = g
        w = Walker(p, inline=inl, vn=True, pure=PURE, blocks=True, sret_local=True, loops=loops, max_paths=60000)
        return [q for q in w.paths(g)]

    def name(base):
        return show(base)

    seen_copy = set()

    def copies(g, paths):
        cur[0] = g
        for q in paths:
            for i, e in enumerate(q.ev):
                if not is_copy(e):
                    continue
                fs = None
                n = units(e.args[2])
                for which, a in (("write", e.args[0]), ("read", e.args[1])):
                    s = storage(a)
                    if s is None:
                        continue
                    base, off = s
                    if fs is None:
                        fs = facts(q, i)
                        dead = q.dead or fs.contradictory()
                    if dead:
                        continue
                    ok = off is not None and n is not None and fs.holds(off) and fs.holds(sub(limit(base, which == "write"), add(off, n)))
                    loop = any(x[0] == "phi" for t in (off[0] if off else {}) for x in subexprs(t))
                    c.check("copy", "%s %s %s %s" % (g.name, which, e.loc, name(base)[:40]), ok, "%s:%s:%s" % (g.name, which, name(base)[:60]), e.loc,
                            "%s copies %s elements %s element %s of %s, which is not within its %s" % (
                                g.name, fmt(n), "to" if which == "write" else "from", fmt(off), name(base)[:80], "capacity" if which == "write" else "length"), q.trace())

    def fmt(f):
        if f is None:
            return "(unknown)"
        t = " + ".join(("%d*" % k if k != 1 else "") + show(x) for x, k in f[0].items())
        return (t + (" + %d" % f[1] if f[1] or not t else "")) or "0"

    paths = {}
    for g in fns:
        c.unit(g)
        paths[g.name] = walk(g)
        c.section(copies, g, paths[g.name])

    # ---- indexed access: argument `index`, vec argument 0
    def ld(v, f):
        return ("ld", ("fld", v, VEC, f), 0)

    def access(g):
        cur[0] = g
        V, I = ("a", 0), ("a", 1)
        L = ld(V, "length")
        good = 0
        for q in paths[g.name]:
            if q.dead:
                continue
            fs = facts(q, len(q.ev))
            if fs.contradictory():
                continue
            inr = fs.holds(form(I)) and fs.holds(sub(sub(form(L), form(I)), num(1)))
            outr = fs.holds(sub(form(I), form(L))) or fs.holds(sub(num(-1), form(I)))
            if raises(q):
                c.check("index", "%s raises only out of range" % g.name, outr, g.name + ":raise", q.end_loc(), "%s raises although the index is in range" % g.name, q.trace())
                cp = [e for e in q.ev if is_copy(e) and storage(e.args[1])]
                ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
                c.check("index", "%s raises before memory" % g.name, not cp and (ret is None or storage(ret) is None or is_null(ret)), g.name + ":raise-access", q.end_loc(),
                        "%s touches the element although the index is out of range" % g.name, q.trace())
                continue
            c.check("index", "%s in range" % g.name, inr, g.name + ":range", q.end_loc(), "%s accesses the element without establishing 0 <= index < length" % g.name, q.trace())
            cp = [e for e in q.ev if is_copy(e) and storage(e.args[1])]
            ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
            if g.sig[0][1] != "void" and ret is not None:
                s = storage(ret)
                good += 1
                c.check("index", "%s address" % g.name, s and s[0] == ld(V, "data") and s[1] == form(I), g.name + ":addr", q.end_loc(), "%s returns the address of another element" % g.name, q.trace())
            else:
                s = storage(cp[0].args[1]) if len(cp) == 1 else None
                good += 1
                c.check("index", "%s element" % g.name, s and s[0] == ld(V, "data") and s[1] == form(I) and units(cp[0].args[2]) == num(1) and U(cp[0].args[0]) == ("a", 2),
                        g.name + ":elem", q.end_loc(), "%s does not copy exactly the requested element" % g.name, q.trace())
        c.need(good, "%s has no in-range path" % g.name)
    for n in ("rti_vec_access", "rt_vec_element_addr"):
        c.section(access, p.need(n))

    # ---- assignment: writes element index exactly
    def assign(g):
        cur[0] = g
        V, I = ("a", 0), ("a", 1)
        n = 0
        for q in paths[g.name]:
            if q.dead:
                continue
            bar = lambda e: e.k == "call" and e.name == "rti_write_barrier_rtype"
            cp = [e for e in q.ev if (is_copy(e) or bar(e)) and storage(e.args[0])]
            n += len(cp)
            s = storage(cp[0].args[0]) if len(cp) == 1 else None
            c.check("index", "%s element" % g.name, s and s[0] == ld(V, "data") and s[1] == form(I) and (U(cp[0].args[2]) == ("a", 3) if bar(cp[0]) else units(cp[0].args[2]) == num(1)) and U(cp[0].args[1]) == ("a", 2),
                    g.name + ":elem", q.end_loc(), "%s does not write exactly the requested element" % g.name, q.trace())
        c.need(n, "%s writes no element" % g.name)
    c.section(assign, p.need("rti_vec_assign"))

    # ---- push / append / concat / copy contents
    def contents():
        cur[0] = None
        for q in paths["rt_vec_push"]:
            if q.dead:
                continue
            cp = [e for e in q.ev if (is_copy(e) or e.k == "call" and e.name == "rti_write_barrier_rtype") and U(e.args[1]) == ("a", 2)]
            s = storage(cp[0].args[0]) if len(cp) == 1 else None
            L = ld(("a", 0), "length")
            c.check("index", "push appends", s and s[1] == form(L) and final(q, ("a", 0), "length") == add(form(L), num(1)), "rt_vec_push:elem", q.end_loc(),
                    "push does not store the element at the old length and count it", q.trace())
        for q in paths["rt_vec_append"]:
            if q.dead:
                continue
            A, B = ("a", 0), ("a", 1)
            cp = [e for e in q.ev if is_copy(e) and storage(e.args[1]) and storage(e.args[1])[0] == ld(B, "data")]
            s = storage(cp[0].args[0]) if len(cp) == 1 else None
            c.check("index", "append places", s and s[1] == form(ld(A, "length")) and storage(cp[0].args[1])[1] == num(0) and units(cp[0].args[2]) == form(ld(B, "length")) and
                    final(q, A, "length") == add(form(ld(A, "length")), form(ld(B, "length"))), "rt_vec_append:elem", q.end_loc(),
                    "append does not place all elements of the second vec after those of the first", q.trace())
        for q in paths["rt_vec_concat"]:
            if q.dead or facts(q, len(q.ev)).contradictory():
                continue
            A, B = ("a", 1), ("a", 2)
            cp = [e for e in q.ev if is_copy(e) and storage(e.args[1])]
            got = {storage(e.args[1])[0]: (storage(e.args[0]), storage(e.args[1])[1], units(e.args[2])) for e in cp if storage(e.args[0])}
            fs = facts(q, len(q.ev))
            zero = fs.holds(sub(num(0), add(form(ld(A, "length")), form(ld(B, "length")))))
            ok = zero or (ld(A, "data") in got and ld(B, "data") in got and got[ld(A, "data")][0][1] == num(0) and got[ld(B, "data")][0][1] == form(ld(A, "length")) and
                          got[ld(A, "data")][1:] == (num(0), form(ld(A, "length"))) and got[ld(B, "data")][1:] == (num(0), form(ld(B, "length"))))
            R = ("al", -1, "result", "result")
            v = q.value_at(("fld", R, VEC, "length"))
            c.check("index", "concat length", v is not None and form(v) == add(form(ld(A, "length")), form(ld(B, "length"))), "rt_vec_concat:len", q.end_loc(),
                    "the result of concat does not have as many elements as both operands", q.trace())
            c.check("index", "concat places", ok, "rt_vec_concat:elem", q.end_loc(), "concat does not place both operands' elements one after the other", q.trace())
        for q in paths["rt_vec_copy"]:
            ret = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
            if q.dead or ret is None or any(is_copy(e) and storage(e.args[0]) for e in q.ev):
                continue
            fs = facts(q, len(q.ev))
            c.check("index", "copy of nothing", fs.holds(sub(num(0), form(ret))) , "rt_vec_copy:none", q.end_loc(), "copy can report elements it has not copied", q.trace())
        # copy: min of the two lengths from the start
        n = 0
        for q in paths["rt_vec_copy"]:
            if q.dead:
                continue
            for e in q.ev:
                if is_copy(e) and storage(e.args[0]) and storage(e.args[1]):
                    n += 1
                    c.check("index", "copy from the start", storage(e.args[0])[1] == num(0) and storage(e.args[1])[1] == num(0), "rt_vec_copy:elem", e.loc,
                            "copy does not copy from the first element to the first element", q.trace())
                    ret = q.ev[-1].val if q.ev[-1].k == "ret" else None
                    c.check("index", "copy reports", ret is not None and form(ret) == units(e.args[2]), "rt_vec_copy:count", e.loc, "copy reports another count than it copied", q.trace())
        c.need(n, "rt_vec_copy copies nothing")

    def final(q, V, f):
        for e in reversed(q.ev):
            if e.k == "store" and U(e.addr) == ("fld", V, VEC, f):
                return form(e.val)
        return None
    c.section(contents)

    # ---- state: every store to length / capacity / data of a vec
    def state(g):
        cur[0] = g
        for q in paths[g.name]:
            if q.dead:
                continue
            vs = {}
            for e in q.ev:
                if e.k == "store":
                    a = U(e.addr)
                    if a[0] == "fld" and a[2] == VEC:
                        vs.setdefault(a[1], {})[a[3]] = e
            fs = facts(q, len(q.ev))
            if fs.contradictory():
                continue
            for V, st in vs.items():
                if V[0] == "al" and V[1] != -1 and not g.sret:
                    continue
                if not set(st) & {"length", "capacity", "data"}:
                    continue

                def get(f):
                    if f in st:
                        return U(st[f].val)
                    if V[0] == "al":
                        v = q.value_at(("fld", V, VEC, f))
                        return U(v) if v is not None else ("c", 0)
                    return ld(V, f)
                if any(is_copy(e) or (e.k == "call" and e.name.startswith("llvm.memset")) for e in q.ev) and V[0] == "al" and "data" not in st and "length" not in st:
                    continue
                Lf, Cf, D = form(get("length")), form(get("capacity")), get("data")
                inst = "%s %s" % (g.name, show(V))
                loc = max((e.loc for e in st.values()), default="")
                c.check("state", inst + " length<=capacity", fs.holds(sub(Cf, Lf)), "%s:len" % g.name, loc, "%s can leave a length of %s above a capacity of %s" % (g.name, fmt(Lf), fmt(Cf)), q.trace())
                E = get("element_size") if V[0] == "al" else None
                if E is not None and D[0] == "call" and D[1] == "rti_array_new" and "data" in st:
                    c.check("state", inst + " element size", fname(E) == "storage_size" and fldname(E)[0] == strip_casts(D[3]), "%s:elsize" % g.name, loc,
                            "%s does not record the storage size of the elements it allocated" % g.name, q.trace())
                if const(D) == 0:
                    okd = fs.holds(sub(num(0), Cf)) or fs.holds(sub(num(0), Lf))
                else:
                    s = storage(D)
                    okd = s is not None and s[1] is not None and fs.holds(s[1]) and fs.holds(sub(sub(limit(s[0], True), s[1]), Cf))
                c.check("state", inst + " storage", okd, "%s:storage" % g.name, loc, "%s can leave a capacity of %s that its storage %s does not have" % (g.name, fmt(Cf), show(D)[:80]), q.trace())
    for g in fns:
        c.section(state, g)

    # ---- size overflow
    def size(g):
        cur[0] = g
        for q in paths[g.name]:
            if q.dead:
                continue
            for i, e in enumerate(q.ev):
                if e.k == "call" and e.name == "rti_array_new":
                    n = U(e.args[1])
                    args = [t for t in form(n)[0] if not nonneg(t) and t[0] != "c"]
                    if not args:
                        continue
                    if any(t != ("a", t[1]) for t in args if t[0] == "a"):
                        continue
                    guarded = False
                    for pr, l, r, _ in known(q, i):
                        for a, b, prs in ((l, r, ("sle", "slt", "ule", "ult")), (r, l, ("sge", "sgt", "uge", "ugt"))):
                            b = strip_casts(b)
                            if pr in prs and b[0] == "bin" and b[1] in ("sdiv", "udiv") and (const(b[2]) or 0) >= 2**31 - 1 and es(b[3]):
                                # the bounded value must be the count itself
                                if U(a) == n or form(a) == form(n):
                                    guarded = True
                        if fs_le0(pr, l, r):
                            guarded = True
                    c.check("size", "%s count" % g.name, guarded or internal(g), "%s:size" % g.name, e.loc,
                            "%s allocates storage for a caller-supplied count of elements without bounding it, so the size can wrap around" % g.name, q.trace())

    def fs_le0(pr, l, r):
        """the element size is zero on this path"""
        return es(l) and const(r) == 0 and pr in ("eq", "sle", "ule")

    def internal(g):
        """only called from the native runtime or by the compiler with literal counts"""
        return g.name in ("rti_vec_new", "rti_vec_grow", "rt_unsafe_vec_new", "rt_vec_grow")
    for g in fns:
        c.section(size, g)

    def slicing():
        g = cur[0] = p.need("rt_vec_slice")
        c.need(g.sret, 'slice no longer returns its result in memory')
        V, S, E = ("a", 1), ("a", 2), ("a", 3)
        L = ld(V, "length")
        n = 0
        for q in paths["rt_vec_slice"]:
            if q.dead:
                continue
            fs = facts(q, len(q.ev))
            if fs.contradictory():
                continue
            m1 = any(pr == "eq" and U(l) == E and const(r) == -1 or pr == "eq" and U(r) == E and const(l) == -1 for pr, l, r, _ in known(q))
            end = form(L) if m1 else form(E)
            start = form(S)
            tests = [start, sub(form(L), start), sub(form(L), end), sub(end, start), end]
            if raises(q):
                bad = any(fs.holds(sub(num(-1), t)) for t in tests)
                d = q.value_at(("fld", ("al", -1, "result", "result"), VEC, "data"))
                c.check("slice", "raise yields nothing", d is None or storage(d) is None, "raise-data", q.end_loc(), "slicing out of range raises but still hands out the storage", q.trace())
                c.check("slice", "raises only out of range", bad, "raise", q.end_loc(), "slicing raises although 0 <= start <= end <= length", q.trace())
                continue
            n += 1
            c.check("slice", "range", all(fs.holds(t) for t in tests), "range", q.end_loc(), "slicing continues without establishing 0 <= start <= end <= length", q.trace())
            R = ("al", -1, "result", "result")
            v = {f: q.value_at(("fld", R, VEC, f)) for f in ("length", "data", "element_size", "hash")}
            c.need(all(x is not None for x in v.values()), "result of the slice operation not recognised")
            s = storage(v["data"])
            c.check("slice", "data", s and s[0] == ld(V, "data") and s[1] == start, "data", q.end_loc(), "the slice does not start at element start", q.trace())
            c.check("slice", "length", form(v["length"]) == sub(end, start), "length", q.end_loc(), "the slice does not have end-start elements", q.trace())
            c.check("slice", "type", U(v["element_size"]) == ld(V, "element_size") and U(v["hash"]) == ld(V, "hash"), "type", q.end_loc(), "the slice does not keep the element size and type", q.trace())
        c.need(n, "slice has no succeeding path")
    c.section(slicing)

    def initial():
        """vec of n equal elements: every element is set unless the value is all zero"""
        g = p.need("rt_vec_new")
        n = 0
        for q in walk(g, 2):
            if q.dead or raises(q):
                continue
            cmp_ = [(i, e) for i, e in enumerate(q.ev) if e.k == "call" and e.name in ("memcmp", "bcmp")]
            for i, e in cmp_:
                n += 1
                # both sides must have as many bytes as are compared
                other = [a for a in e.args[:2] if strip_casts(a)[0] == "al"]
                sz = const(e.args[2])
                okb = not other
                if other:
                    for pr, l, r, _ in known(q, i):
                        if pr in ("ule", "sle", "ult", "slt") and U(l) == U(e.args[2]) and const(r) is not None and const(r) <= 8:
                            okb = True
                    okb = okb or (sz is not None and sz <= 8)
                c.check("copy", "rt_vec_new compares", okb, "rt_vec_new:cmp", e.loc, "the default value is compared with more bytes than the zero word has", q.trace())
        # filling: a path that leaves the loop after k elements has set 0..k-1 and knows length <= k
        m = 0
        for q in walk(g, 2):
            if q.dead:
                continue
            fs = facts(q, len(q.ev))
            if fs.contradictory():
                continue
            N = form(("a", 3))
            if raises(q):
                big = any(toobig(pr, l, r) or toobig(SWAP.get(pr, pr), r, l) for pr, l, r, _ in known(q))
                c.check("state", "rt_vec_new raises", big or fs.holds(sub(num(-1), N)), "rt_vec_new:raise", q.end_loc(), "creating a vec raises for a valid length", q.trace())
                continue
            c.check("state", "rt_vec_new accepts", fs.holds(N), "rt_vec_new:accept", q.end_loc(), "a vec is created for a negative length", q.trace())
            v = q.value_at(("fld", R, VEC, "length"))
            c.check("state", "rt_vec_new length", v is not None and form(v) == N, "rt_vec_new:length", q.end_loc(), "a new vec does not have the requested length", q.trace())
            cps = [e for e in q.ev if is_copy(e) and U(e.args[1]) == ("a", 4)]
            zero = zero_value(q)
            empty = fs.holds(sub(num(0), N))
            idx = [storage(e.args[0])[1] if storage(e.args[0]) else None for e in cps]
            ok = empty or (zero and not cps) or (idx == [num(i) for i in range(len(idx))] and len(idx) > 0 and fs.holds(sub(num(len(idx)), N)))
            m += bool(cps)
            c.check("index", "rt_vec_new fills", ok, "rt_vec_new:fill", q.end_loc(), "a new vec is not filled completely with its default value", q.trace())
        c.need(m, "filling of a new vec not recognised")

    R = ("al", -1, "result", "result")
    SWAP = {"slt": "sgt", "sle": "sge", "ult": "ugt", "ule": "uge", "sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule"}

    def toobig(pr, l, r):
        r = strip_casts(r)
        return pr in ("sgt", "ugt", "sge", "uge") and r[0] == "bin" and r[1] in ("sdiv", "udiv")

    def zero_value(q):
        """the path knows the default value consists of zero bytes"""
        for i, e in enumerate(q.ev):
            if e.k == "call" and e.name in ("memcmp", "bcmp"):
                z = [a for a in e.args[:2] if strip_casts(a)[0] == "al"]
                st = [x for x in q.ev[:i] if x.k == "store" and z and strip_casts(x.addr) == strip_casts(z[0])]
                if st and const(st[-1].val) == 0:
                    for pr, l, r, _ in known(q):
                        if pr == "eq" and const(r) == 0 and strip_casts(l) == strip_casts(e.res):
                            return True
        return False

    def create(g):
        cur[0] = g
        for q in paths[g.name]:
            if q.dead or raises(q) or facts(q, len(q.ev)).contradictory():
                continue
            h = q.value_at(("fld", R, VEC, "hash"))
            c.check("state", g.name + " hash", h is not None and U(h) == ("a", 1), g.name + ":hash", q.end_loc(), "%s does not record the type of the vec" % g.name, q.trace())
            if g.name == "rt_vec_cap":
                v, k = q.value_at(("fld", R, VEC, "length")), q.value_at(("fld", R, VEC, "capacity"))
                fs = facts(q, len(q.ev))
                c.check("state", "rt_vec_cap", v is not None and const(v) == 0 and k is not None and form(k) == form(("a", 3)) and fs.holds(form(("a", 3))), "rt_vec_cap:fields", q.end_loc(),
                        "a vec created with a capacity is not empty with that capacity, or the capacity is negative", q.trace())
        for q in paths[g.name]:
            if g.name == "rt_vec_cap" and not q.dead and raises(q):
                fs = facts(q, len(q.ev))
                big = any(toobig(pr, l, r) or toobig(SWAP.get(pr, pr), r, l) for pr, l, r, _ in known(q))
                c.check("state", "rt_vec_cap raises", big or fs.holds(sub(num(-1), form(("a", 3)))), "rt_vec_cap:raise", q.end_loc(), "creating a vec raises for a valid capacity", q.trace())
    for n in ("rt_vec_new", "rt_vec_cap", "rt_unsafe_vec_new"):
        c.section(create, p.need(n))

    def grow():
        g = cur[0] = p.need("rt_vec_grow")
        V = ("a", 0)
        for q in paths[g.name]:
            if q.dead:
                continue
            fs = facts(q, len(q.ev))
            if fs.contradictory():
                continue
            new = [e for e in q.ev if e.k == "call" and e.name == "rti_array_new"]
            D = [e for e in q.ev if e.k == "store" and U(e.addr) == ("fld", V, VEC, "data")]
            c.check("state", "grow replaces", len(new) == 1 and len(D) == 1 and strip_casts(D[0].val) == strip_casts(new[0].res), "grow:replace", q.end_loc(), "growing does not install the new storage", q.trace())
            cp = [e for e in q.ev if is_copy(e) and storage(e.args[1]) and storage(e.args[1])[0] == ld(V, "data")]
            empty = fs.holds(sub(num(0), form(ld(V, "length"))))
            ok = empty or (len(cp) == 1 and storage(cp[0].args[1])[1] == num(0) and units(cp[0].args[2]) == form(ld(V, "length")) and storage(cp[0].args[0]) and
                           storage(cp[0].args[0])[1] == num(0) and storage(cp[0].args[0])[0][0] == "call")
            c.check("index", "grow keeps", ok, "grow:keep", q.end_loc(), "growing does not carry over all elements", q.trace())
            if not empty:
                C = final(q, V, "capacity")
                c.check("state", "grow grows", C is not None and (fs.holds(sub(C, form(ld(V, "length"))))), "grow:cap", q.end_loc(), "growing can shrink the storage below the length", q.trace())
    c.section(grow)
    c.section(initial)

    def arr():
        g = p.need("rti_array_new")
        n = 0
        for q in Walker(p, inline=lambda x: x.name == "rti_rtype_array", vn=True, blocks=True, pure={"rti_gc_malloc"}).paths(g):
            if q.dead:
                continue
            for e in q.ev:
                if e.k == "call" and e.name == "rti_gc_malloc":
                    n += 1
                    t = form(e.args[0])
                    ok = len(t[0]) == 1 and t[1] == 0
                    if ok:
                        x = list(t[0])[0]
                        ok = x[0] == "bin" and x[1] == "mul" and {fname(x[2]), fname(x[3])} >= {"storage_size"} and ("a", 1) in (x[2], x[3])
                    c.check("sizing", "rti_array_new", ok, "rti_array_new", e.loc, "array storage is not length * element storage size bytes", q.trace())
        c.need(n, "rti_array_new allocates nothing")
    c.section(arr)


# ---------------------------------------------------------------------------------------------- compiler
def compiler(c):
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    L = Lir(p)
    fns = list(p.unique(lambda g: g.file == "src/linear.c"))

    def helper(g):
        """returns the address operand of an element: scaled index added to a base"""
        if not g.sig or "lir_operand_t" not in g.sig[0][0]:
            return False
        news = [i for i in g.insts() if i.op == "call" and i.callee == "lir_op_new"]
        codes = [const(static_expr(g, i.ops[0])) for i in news]
        return p.enum("LIR_OPCODE_MUL") in codes and p.enum("LIR_OPCODE_ADD") in codes

    hs = [g for g in fns if helper(g)]
    c.need(len(hs) >= 2, "element address lowering not found")

    def size_operand(e):
        e = strip_casts(e)
        return e[0] == "call" and e[1] in ("int_operand", "integer_operand") and fname(e[3]) in ("storage_size", "element_size")

    emit_ok = Reach(p, ("linked_push", "push_rt_call"))
    pure = {g.name for g in p.unique()} | {"linked_push", "push_rt_call"}

    kinds = {}
    for g in hs:
        c.unit(g)
        n = 0
        verdict = set()
        for q in Walker(p, inline=lambda x: x.file == "src/linear.c" and emit_ok(x) and x.name not in ("linear_bal_error",) and not x.name.startswith("linear_unwind"),
                        vn=True, pure=pure, blocks=True, max_paths=20000).paths(g):
            if q.dead:
                continue
            ops = L.emitted(q)
            # the index parameter is the one scaled by the element size
            for fl, end in L.flows(ops):
                scaled = {}
                ext = {}
                src = {}
                truths = {}
                defs = {}
                for o, tk in fl:
                    if o.code in ("UEXT", "SEXT", "MOVE") and o.r is not None:
                        ext[o.r] = (o.code, o.a)
                    if o.code in ("USLT", "USLE", "USGT", "USGE", "SLT", "SLE", "SGT", "SGE") and o.r is not None:
                        defs[o.r] = o
                    t = L.truth(o, tk) if tk is not None else None
                    if t:
                        truths[t[0]] = t[1]
                    if o.code == "MUL":
                        for x, y in ((o.a, o.b), (o.b, o.a)):
                            if size_operand(y):
                                scaled[o.r] = x
                    if o.code == "ADD" and (o.a in scaled or o.b in scaled):
                        off, base = (o.b, o.a) if o.b in scaled else (o.a, o.b)
                        idx = scaled[off]
                        n += 1
                        # widening
                        if idx in ext and ext[idx][0] in ("UEXT", "SEXT"):
                            sg = signed(q, ext[idx][1])
                            c.check("widen", g.name, sg is not None and sg == (ext[idx][0] == "SEXT"), g.name + ":widen:" + ext[idx][0], o.loc,
                                    "%s widens a narrow index with %s although its type is %s" % (g.name, ext[idx][0], "signed" if sg else "unsigned or not tested"), q.trace())
                        elif narrow(q, idx) or strip_casts(idx)[:2] == ("call", "temp_var_operand") and idx not in ext:
                            c.bad("widen", g.name + ":none", o.loc, "%s uses a narrow index without widening it" % g.name, q.trace())
                        ok = False
                        for x, tv in truths.items():
                            d = defs.get(x)
                            if d is None:
                                continue
                            lt = (d.code == "USLT" and tv and d.a == idx and length_of(d.b, base, ext)) or \
                                 (d.code == "USGE" and not tv and d.a == idx and length_of(d.b, base, ext)) or \
                                 (d.code == "USGT" and tv and d.b == idx and length_of(d.a, base, ext)) or \
                                 (d.code == "USLE" and not tv and d.b == idx and length_of(d.a, base, ext))
                            ok = ok or lt
                        tested = bool(defs)
                        verdict.add("guarded" if ok else "broken" if tested or any(o2.code == "RT_CALL" for o2, _ in fl) else "free")
                        if tested and not ok:
                            c.bad("guard", g.name, o.loc, "%s: generated code reaches the element address without index < length being established" % g.name, q.trace())
                        elif ok:
                            c.ok("guard", g.name)
                        # returned operand is this address
                        r = q.ev[-1].val if q.ev and q.ev[-1].k == "ret" else None
                        c.check("guard", g.name + " result", r is not None and strip_casts(r) == strip_casts(o.r), g.name + ":ret", o.loc, "%s does not return the computed element address" % g.name, q.trace())
                # flows that do not reach the address must raise and leave
                if end[0] == "exit" or not scaled:
                    thr = [o for o, _ in fl if o.code == "RT_CALL" and o.rt and "index" in o.rt]
                    left = any(o.code == "GEN" and o.rt == "linear_bal_error" for o, _ in fl) or end[0] == "exit"
                    c.check("guard", g.name + " raises", thr and left, g.name + ":raise", fl[-1][0].loc if fl else "", "%s: the out-of-range flow does not raise and leave" % g.name, q.trace())
                else:
                    # a flow through the raising call must leave before the address
                    for k, (o, _) in enumerate(fl):
                        if o.code == "RT_CALL" and o.rt and "index" in o.rt:
                            left = False
                            for o2, _ in fl[k + 1:]:
                                if o2.code == "GEN" and o2.rt == "linear_bal_error" or o2.code == "BAL" and strip_casts(L.label(o2.r)) != ():
                                    left = True
                                    break
                                if o2.code in ("MUL", "ADD"):
                                    break
                            c.check("guard", g.name + " leaves", left, g.name + ":leave", o.loc, "%s: generated code continues to the element after raising" % g.name, q.trace())
        c.need(n, "%s: element address not found in the generated code" % g.name)
        kinds[g.name] = "checked" if "guarded" in verdict and not verdict & {"free"} else "unchecked"
        if "guarded" in verdict and "free" in verdict:
            c.bad("guard", g.name + ":some", "%s" % g.file, "%s: some paths generate the element address without the range test" % g.name)
    c.need("checked" in kinds.values(), "no checked element address lowering")

    # call sites
    chk = [n for n, k in kinds.items() if k == "checked"]
    n_acc = 0
    for f in fns:
        for i in f.insts():
            if i.op != "call" or i.callee not in kinds:
                continue
            idx = strip_casts(static_expr(f, i.ops[2]))
            if kinds[i.callee] == "unchecked":
                roots_ = literal(idx, f)
                c.check("unchecked", "%s in %s" % (i.callee, f.name), roots_, "%s:%s" % (f.name, i.callee), i.loc,
                        "%s generates an unchecked element address for an index that is not a constant" % f.name)
    # lowering functions of access expressions
    for f in fns:
        st = set()
        for i in f.insts():
            if i.op == "call" and i.callee in ("linear_expr", "linear_expr_byval"):
                pass
        fields = set()
        for i in f.insts():
            for x in (i.ops or []):
                e = static_expr(f, x)
                for t in subexprs(e):
                    if t[0] == "fld" and t[2] in ("ast_vec_access_t", "ast_array_access_t") and t[3] == "index":
                        fields.add(t[2])
        if not fields:
            continue
        n_acc += 1
        c.unit(f)
        calls = [i for i in f.insts() if i.op == "call" and i.callee in kinds]
        c.check("access", f.name + " checked", calls and all(kinds[i.callee] == "checked" for i in calls), f.name + ":checked", f.file,
                "%s lowers an element access without the checked element address" % f.name)
        for q in Walker(p, inline=lambda g: False, vn=True, pure=pure, blocks=True, max_paths=5000).paths(f):
            if q.dead:
                continue
            for e in q.ev:
                if e.k == "call" and e.name in kinds:
                    b, ix = strip_casts(e.args[1]), strip_casts(e.args[2])
                    okb = lowered(b, "left", q)
                    oki = lowered(ix, "index", q)
                    c.check("access", f.name + " operands", okb and oki, f.name + ":operands", e.loc, "%s does not pass the lowered container and index to the checked address" % f.name, q.trace())
    c.need(n_acc >= 2, "lowering of element accesses not found")

    def slicecall():
        n = 0
        for f in fns:
            for i in f.insts():
                if i.op == "call" and i.callee == "push_rt_call" and L.text(static_expr(f, i.ops[1])) in ("rt_vec_slice_out", "rt_vec_slice"):
                    c.unit(f)
                    for q in Walker(p, inline=lambda g: False, vn=True, pure=pure, blocks=True).paths(f):
                        if q.dead:
                            continue
                        for k, e in enumerate(q.ev):
                            if e.k == "call" and e.name == "push_rt_call" and L.text(e.args[1]) in ("rt_vec_slice_out", "rt_vec_slice"):
                                n += 1
                                a = e.args[4:]
                                ok = len(a) == 4 and lowered(a[2], "start", q) and lowered(a[3], "end", q) and mentions_field(a[1], "left")
                                c.check("slicecall", f.name, ok, f.name + ":args", e.loc, "a slice expression does not pass its own container, start and end", q.trace())
                                rest = q.ev[k + 1:]
                                c.check("slicecall", f.name + " tests", any(x.k == "call" and x.name == "linear_has_panic" for x in rest), f.name + ":panic", e.loc, "generated code does not test for the error of the slice", q.trace())
                    break
        c.need(n, "lowering of slices not found")

    def mentions_field(e, fld):
        return any(t[0] == "fld" and t[3] == fld for t in subexprs(e)) or any(t[0] == "call" and any(is_field(x, fld) for x in t[3:]) for t in subexprs(e))
    c.section(slicecall)


def is_field(x, fld):
    x = strip_casts(x)
    return x[0] == "fld" and x[3] == fld


def lowered(e, fld, q):
    """operand produced by lowering the sub-expression in field `fld`"""
    e = strip_casts(e)
    if e[0] != "call" or not e[1].startswith("linear_expr"):
        return False
    # the expression is passed by value: find the copy that filled the argument
    for a in e[3:]:
        a = strip_casts(a)
        if is_field(a, fld) or (a[0] == "ld" and is_field(a[1], fld)):
            return True
        if a[0] == "al":
            for x in q.ev:
                if is_copy(x) and strip_casts(x.args[0]) == a and is_field(x.args[1], fld):
                    return True
    return False


def literal(e, f):
    e = strip_casts(e)
    if e[0] == "phi":
        return all(literal(x, f) for x in e[2:] if isinstance(x, tuple))
    return e[0] == "call" and e[1] in ("int_operand", "integer_operand")


def signed(q, operand):
    """what the path knows about the signedness of an operand's type"""
    for pr, l, r, _ in known(q):
        l = strip_casts(l)
        if l[0] == "call" and l[1] in ("is_signed", "is_unsigned") and const(r) == 0 and pr in ("eq", "ne"):
            t = pr == "ne"
            return t if l[1] == "is_signed" else not t
    return None


def narrow(q, idx):
    for pr, l, r, _ in known(q):
        l = strip_casts(l)
        if l[0] == "call" and l[1] == "operand_type_storage_size" and pr in ("ult", "slt") and const(r) == 8 and strip_casts(l[3]) == strip_casts(idx):
            return True
    return False


def length_of(e, base, ext):
    """e is the length of the container whose elements are addressed from base"""
    e = strip_casts(e)
    if e[0] == "call" and e[1] in ("int_operand", "integer_operand"):
        return fname(e[3]) == "length"
    if e in ext and ext[e][0] == "MOVE":
        s = strip_casts(ext[e][1])
        if s[0] == "call" and s[1] == "indirect_addr_operand" and const(s[-1]) is not None:
            b = strip_casts(base)
            if b in ext and ext[b][0] == "MOVE":
                d = strip_casts(ext[b][1])
                # data and length are read from the same vec, at the right fields
                return d[0] == "call" and d[1] == "indirect_addr_operand" and d[-2] == s[-2] and const(s[-1]) == 8 and const(d[-1]) == 0
            return False
    return False


main("R01", TECH, body)
