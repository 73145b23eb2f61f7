"""R04: the pointer maps of native heap objects cover every reference they hold, and native structures holding references are roots."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
from ir import AnalysisError

TECH = ("agreement of typed struct layouts (debug info) with the pointer maps that the initialisers and map builders produce on every IR path, "
        "allocation-site analysis, and path rules on the code that turns maps into heap bits and coroutines into roots")

# pointees that are never collected memory: type descriptors, scheduler objects (fix allocators), code, C library objects
NATIVE = re.compile(r"^(const )?(rtype_t|coroutine_t|n_processor_t|struct n_processor_t|mutex_t|pthread_mutex_t|uv_\w+|uv__\w+|FILE|mspan_t|arena_t|aco_\w+|fixalloc_t|fndef_t|char|const char|struct addrinfo|struct sockaddr\w*|mbedtls_\w+)\b")
# words that hold an address without keeping it alive, with the reason
WEAK = {
    ("n_vec_t", "allocator"): "allocator objects are owned by the fx caller",
    ("n_string_t", "allocator"): "allocator objects are owned by the fx caller",
    ("linkco_t", "data"): "points into the stack of the waiting coroutine",
    ("linkco_t", "chan"): "a queue entry is only reachable through that channel or the waiting coroutine",
    ("coroutine_t", "data"): "documented as not followed by the collector",
    ("coroutine_t", "wait_lock"): "address of a lock held by the waiting frame",
    ("coroutine_t", "wait_unlock_fn"): "code address",
    ("aco_t", "arg"): "the coroutine itself",
    ("aco_t", "reg"): "saved registers, scanned with the stack",
    ("aco_t", "fp"): "code address",
    ("n_future_t", "await_co"): "coroutine object",
}
PURE = {"type_hash", "data_put", "calc_gc_bits_size", "bitmap_set", "bitmap_clear", "align_up", "ct_list_value", "type_is_pointer_heap",
        "type_struct_alignof", "span_of", "take_arena", "strtable_put"}


def U(e):
    return unversion(strip_all(e))


class Layout:
    def __init__(s, structs):
        s.t = structs

    def refs(s, name, base=0, path="", depth=0):
        """[(byte offset, field path)] of the words of a struct that hold references to collected memory"""
        out = []
        st = s.t.get(name)
        if st is None or depth > 6:
            return out
        for (f, off, size, ct, it) in st["m"]:
            if (name, f) in WEAK:
                continue
            p = (path + "." + f).lstrip(".")
            if ct == "value_casting":
                out.append((base + off, p))
            elif it == "ptr":
                if "(" in ct or ct.endswith("_fn") or ct.endswith("_fn_t"):
                    continue
                to = ct[:-1].strip() if ct.endswith("*") else ct
                if not ct.endswith("*") or NATIVE.match(to):
                    continue
                out.append((base + off, p))
            elif ct in s.t and it.startswith(("struct", "union")):
                if st.get("union"):
                    continue
                out += s.refs(ct, base + off, p, depth + 1)
        return out

    def size(s, name):
        return s.t[name]["size"]


def static_maps(p):
    """name of static type descriptor -> (set of marked words, number of words, kind, loc) from its initialiser"""
    out = {}
    f = p.need("builtin_rtype_init")
    bits = {}
    cur = None
    fields = {}
    size = {}
    for i in f.insts():
        if i.op == "alloca":
            size[i.id] = i.x
        if i.op == "call" and i.callee and i.callee.startswith("llvm.memcpy"):
            dst, src, n = i.ops[0], i.ops[1], i.ops[2]
            if isinstance(src, list) and src[0] == "s" and dst in size:
                raw = src[1].encode("latin-1", "replace")
                raw = raw + b"\0" * (size[dst] - len(raw))
                cur = (dst, {k for k, b in enumerate(raw[:size[dst]]) if b}, size[dst])
            elif isinstance(dst, str) and dst.startswith("@") and dst.endswith("_rtype"):
                # the descriptor assembled before this copy
                out[dst[1:]] = (cur[1] if cur else set(), cur[2] if cur else 0, fields.get("kind"), i.loc)
                cur, fields = None, {}
        if i.op == "call" and i.callee and i.callee.startswith("llvm.memset") and i.ops[0] in size:
            cur = (i.ops[0], set(), size[i.ops[0]])
        if i.op == "store":
            a = static_expr(f, i.ops[1])
            if a[0] == "fld" and a[2] == "rtype_t" and isinstance(i.ops[0], list) and i.ops[0][0] == "c":
                fields[a[3]] = i.ops[0][1]
            elif a[0] in ("al", "idx") and isinstance(i.ops[0], list) and i.ops[0][0] == "c":
                # arrays initialised element by element
                b = a
                k = 0
                if a[0] == "idx":
                    b = a[1]
                    k = a[2][1] if a[2][0] == "c" else 0
                if b[0] == "al" and size.get(b[2]) is not None:
                    if cur is None or cur[0] != b[2]:
                        cur = (b[2], set(), size[b[2]])
                    if i.ops[0][1]:
                        cur[1].add(k)
    return out


def object_type(p, site):
    """struct the allocation result is used as: accessed fields, or the declared result of the function, or the field it is stored to"""
    f = site.fn
    names = set()
    for i in f.insts():
        if i.op == "gep":
            for s in (i.x or []):
                if s[0] == "f" and i.ops[0] == site.id:
                    names.add(s[1])
        if i.op == "store" and i.ops[0] == site.id:
            a = static_expr(f, i.ops[1])
            k = (a[2], a[3]) if a[0] == "fld" else None
            if k and k[0] in p.structs:
                for m in p.structs[k[0]]["m"]:
                    if m[0] == k[1] and m[3].endswith("*"):
                        names.add(m[3][:-1].strip())
    if not names and f.sig and f.sig[0][0].endswith("*"):
        names.add(f.sig[0][0][:-1].strip())
    names = {n for n in names if n in p.structs}
    return names


def body(c):
    c.rule("map", "the static pointer map of a native object type marks every word of the struct that holds a reference, and covers its size", 6)
    c.rule("alloc", "every native allocation asks for the size its map describes; memory without a map holds no references", 20)
    c.rule("array", "an array allocated for elements that hold references is scanned completely", 4)
    c.rule("builtin", "the compiled map of every built-in type marks every reference word of its run-time representation and nothing is cut off", 40)
    c.rule("aggregate", "struct, tuple and array maps mark the references of every member at the place the member has", 60)
    c.rule("heapbits", "an allocation transfers its whole map to the heap bits and clears the rest", 20)
    c.rule("roots", "every reference a coroutine object holds is handed to the collector when the coroutine is scanned", 12)
    c.rule("native", "memory the collector does not scan is never made the only holder of a fresh collected object", 10)

    rt = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    cp = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    L = Layout(rt.structs)
    c.section(natives, c, rt, L)
    c.section(heapbits, c, rt)
    c.section(roots_of_coroutine, c, rt, L)
    c.section(native_holders, c, rt, L)
    c.section(builtins, c, cp, L)
    c.section(aggregates, c, cp, L)


# ---------------------------------------------------------------- static maps and allocation sites
def natives(c, p, L):
    maps = static_maps(p)
    c.need(len(maps) >= 10, "static pointer maps not found")
    sites = [i for i in p.callers("rti_gc_malloc")]
    c.need(len(sites) >= 20, "allocation sites not found")
    seen = set()
    for i in sites:
        f = i.fn
        key0 = (f.name, i.loc)
        if key0 in seen:
            continue
        seen.add(key0)
        c.unit(f.name)
        size, rt = static_expr(f, i.ops[0]), static_expr(f, i.ops[1])
        names = object_type(p, i)
        if rt[0] == "g":
            m = maps.get(rt[1])
            if not c.check("alloc", f.name, m is not None, "%s:%s:unknown" % (f.name, rt[1]), i.loc, "allocation with %s, which is no initialised type descriptor" % rt[1]):
                continue
            marked, words, kind, loc = m
            if not names:
                continue
            for n in sorted(names):
                need = L.size(n)
                sz = key_of(strip_casts(size)) if size[0] == "ld" else None
                got = const(size)
                fromdesc = sz == ("rtype_t", "gc_heap_size") and mentions(size, rt)
                c.check("alloc", f.name, (got is not None and got >= need) or fromdesc, "%s:%s:size" % (f.name, n), i.loc,
                        "%s of %d bytes is allocated with size %s" % (n, need, show(size)))
                c.check("map", rt[1], words * 8 >= need, "%s:%s:size" % (rt[1], n), loc,
                        "%s describes %d bytes, %s has %d" % (rt[1], words * 8, n, need))
                for off, path in L.refs(n):
                    c.check("map", rt[1], off // 8 in marked, "%s:%s:%s" % (rt[1], n, path), loc,
                            "word %d of %s (%s.%s) holds a reference but is not marked" % (off // 8, rt[1], n, path))
        elif const(rt) == 0:
            # memory without map
            for n in sorted(names):
                held = L.refs(n)
                got = const(size)
                c.check("alloc", f.name, got is None or got >= L.size(n), "%s:%s:size" % (f.name, n), i.loc, "%s is allocated with %s bytes" % (n, got))
                bad = fresh_stores(p, n, held)
                c.check("alloc", f.name, not bad, "%s:%s:nomap:%s" % (f.name, n, ",".join(sorted({b[1] for b in bad}))), bad[0][0] if bad else i.loc,
                        "%s is allocated without a map but a collected object is stored in %s" % (n, ", ".join(sorted({b[1] for b in bad}))))
            if not names:
                c.ok("alloc", f.name)
        else:
            # descriptor known at run time only: size must be the one of the same descriptor
            sz = strip_casts(size)
            ok = sz[0] == "ld" and key_of(sz) == ("rtype_t", "gc_heap_size") and U(sz[1][1]) == U(rt)
            c.check("alloc", f.name, ok, "%s:size" % f.name, i.loc, "allocation with descriptor %s asks for %s bytes" % (show(rt), show(size)))

    # element types of native arrays
    elem = {"errort_trace_rtype": "n_trace_t", "env_value_rtype": None, "uint64_rtype": None, "string_element_rtype": None}
    for r, n in elem.items():
        if r not in maps:
            continue
        marked, words, kind, loc = maps[r]
        if n:
            for off, path in L.refs(n):
                c.check("map", r, off // 8 in marked, "%s:%s:%s" % (r, n, path), loc, "word %d of %s (%s.%s) holds a reference but is not marked" % (off // 8, r, n, path))
            c.check("map", r, words * 8 == L.size(n), "%s:%s:size" % (r, n), loc, "%s describes %d bytes, %s has %d" % (r, words * 8, n, L.size(n)))
    if "env_value_rtype" in maps:
        m = maps["env_value_rtype"]
        c.check("map", "env_value_rtype", 0 in m[0] and m[1] == 1, "env_value_rtype", m[3], "captured variables are references, one word each")
    # array descriptor
    f = p.need("rti_rtype_array")
    R = ("al", -1, "result", "result")
    for q in Walker(p, vn=True, blocks=True, sret_local=True).paths(f):
        if q.dead:
            continue
        v = lambda n: q.value_at(("fld", R, "rtype_t", n))
        sz = v("gc_heap_size")
        ok = sz is not None and sz[0] == "bin" and sz[1] == "mul" and any(key_of(strip_casts(x)) == ("rtype_t", "storage_size") for x in sz[2:]) and any(U(x) == ("a", 2) for x in sz[2:])
        c.check("array", f.name, ok, "size", f.loc, "array of n elements gets %s bytes" % show(sz))
        lp = v("last_ptr")
        ok = lp is not None and mentions_field(lp, "last_ptr")
        c.check("array", f.name, ok, "last_ptr", f.loc, "whether an array holds references is taken from %s" % (show(lp) if lp else None))
        c.check("array", f.name, const(v("kind")) == p.enum("TYPE_ARR"), "kind", f.loc, "array descriptor has another kind")
        off = const(v("malloc_gc_bits_offset"))
        c.check("array", f.name, off in (-1, (1 << 64) - 1), "bits", f.loc, "array descriptor made at run time refers to a stored map")
    # descriptors replaced by the compiled ones keep their kind
    f = p.need("rtypes_deserialize")
    K = {v: k for k, v in p.enums.get("type_kind", {}).items()} if "type_kind" in p.enums else {}
    for q in Walker(p, vn=True, blocks=True, loops=1, inline=lambda g: False, max_paths=60000).paths(f):
        kind = {}
        for e in q.ev:
            if e.k == "assume":
                x = U(e.cond)
                if x[0] == "cmp" and x[1] in ("eq", "ne") and key_of(strip_casts(x[2])) == ("rtype_t", "kind") and const(x[3]) is not None:
                    if (x[1] == "eq") == bool(e.truth):
                        kind[U(x[2][1][1])] = const(x[3])
            if e.k == "call" and is_copy_name(e.name) and e.args[0][0] == "g" and e.args[0][1] in maps:
                src = U(e.args[1])
                if src in kind and kind[src] != p.enum("TYPE_NULL") and maps[e.args[0][1]][2] is not None and e.args[0][1] != "string_element_rtype":
                    same = maps[e.args[0][1]][2] == kind[src]
                    c.check("map", e.args[0][1], same, "%s:replaced" % e.args[0][1], e.loc, "%s is replaced by the descriptor of another kind of type" % e.args[0][1], q.trace())


def is_copy_name(n):
    return bool(n) and (n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"))


def mentions_field(e, f):
    return any(x[0] == "ld" and (key_of(x) or (0, 0))[1] == f for x in subexprs(e))


ALLOC = {"rti_gc_malloc", "gc_malloc", "gc_malloc_size", "rti_array_new", "rt_array_new", "rti_vec_new", "rt_vec_new", "rt_vec_cap", "rt_vec_alloc", "rt_string_new",
         "string_new", "string_ref_new", "rt_map_new", "rt_set_new", "string_concat", "rt_vec_slice", "rt_vec_concat", "string_to_vec", "rt_chan_new", "fn_new", "env_new", "struct_new", "tuple_new"}


def fresh_stores(p, struct, held):
    """stores of a fresh collected object into a reference word of `struct`: [(loc, path)]"""
    tops = {path.split(".")[0] for _, path in held}
    out = []
    for f in p.unique():
        for i in f.insts():
            if i.op == "store":
                a = static_expr(f, i.ops[1])
                if a[0] == "fld" and a[2] == struct and a[3] in tops:
                    v = static_expr(f, i.ops[0])
                    if any(x[0] == "call" and x[1] in ALLOC for x in [strip_casts(v)]):
                        out.append((i.loc, a[3]))
            if i.op == "call" and i.callee:
                # struct results written into the field, directly or through a local copied there
                if is_copy_name(i.callee):
                    a = static_expr(f, i.ops[0])
                    if a[0] == "fld" and a[2] == struct and a[3] in tops:
                        src = static_expr(f, i.ops[1])
                        if src[0] == "al" and any(j.op == "call" and j.callee in ALLOC and j.ops and static_expr(f, j.ops[0]) == src for j in f.insts()):
                            out.append((i.loc, a[3]))
                elif i.callee in ALLOC and i.ops:
                    a = static_expr(f, i.ops[0])
                    if a[0] == "fld" and a[2] == struct and a[3] in tops:
                        out.append((i.loc, a[3]))
                elif i.callee in GROWS and i.ops:
                    # growing a container in place allocates
                    a = static_expr(f, i.ops[0])
                    if a[0] == "fld" and a[2] == struct and a[3] in tops:
                        out.append((i.loc, a[3]))
    return out


GROWS = {"rt_vec_push", "rt_vec_append", "rti_vec_grow", "rt_vec_grow", "rt_map_assign", "rt_set_add"}


def native_holders(c, p, L):
    """structs outside the collected heap (C allocator, statics) that have reference fields"""
    holders = {}
    for f in p.unique():
        for i in f.insts():
            if i.op == "call" and i.callee in ("malloc", "mallocz", "calloc", "fixalloc_alloc", "realloc"):
                for n in object_type(p, i):
                    holders.setdefault(n, i.loc)
    c.need(len(holders) >= 8, "native allocations not found")
    for n, loc in sorted(holders.items()):
        if n in ("coroutine_t", "n_processor_t", "mspan_t") or n.startswith("n_"):
            continue   # coroutine and processor fields: rule roots; pooled strings: scanned through the pool
        held = containers(p, L, n)
        if not held:
            c.ok("native", n)
            continue
        bad = fresh_stores(p, n, held)
        c.check("native", n, not bad, "%s:%s" % (n, ",".join(sorted({b[1] for b in bad}))), bad[0][0] if bad else loc,
                "%s lives outside the collected heap but becomes the holder of a new collected object (%s)" % (n, ", ".join(sorted({b[1] for b in bad}))))


def containers(p, L, n):
    """fields of collected container types"""
    out = []
    for (f, off, size, ct, it) in p.structs[n]["m"]:
        base = ct.rstrip("*").strip()
        if base in ("n_vec_t", "n_string_t", "n_map_t", "n_set_t", "n_chan_t", "n_interface_t", "n_union_t", "n_any_t", "n_fn_t", "n_array_t"):
            out.append((off, f))
    return out


# ---------------------------------------------------------------- from map to heap bits
def heapbits(c, p):
    for name in ("std_malloc", "large_malloc"):
        f = p.need(name)
        c.unit(name)
        for q in Walker(p, vn=True, inline=lambda g: g.name not in ("heap_arena_bits_set", "mcache_alloc", "mheap_alloc_span", "make_spanclass", "calc_sizeclass", "span_of") and g.file == "runtime/allocator.c" and len(g.blocks) < 12).paths(f):
            if q.dead:
                continue
            hasptr = None
            isnull = False
            for e in q.ev:
                if e.k == "assume":
                    x = U(e.cond)
                    if x[0] == "cmp" and x[1] in ("eq", "ne") and x[2] == ("a", 1) and const(x[3]) == 0:
                        if (x[1] == "eq") == bool(e.truth):
                            isnull = True
                    if x[0] == "cmp" and key_of(strip_casts(x[2])) == ("rtype_t", "last_ptr") and const(x[3]) == 0:
                        pos = x[1] in ("ugt", "ne", "sgt")
                        hasptr = (pos == bool(e.truth))
            sets = [e for e in q.ev if e.k == "call" and e.name == "heap_arena_bits_set"]
            need = hasptr and not isnull
            c.check("heapbits", name, bool(sets) == bool(need), "%s:set:%s" % (name, bool(need)), q.end_loc(),
                    "%s: object %s references, heap bits are %sset" % (name, "with" if need else "without", "" if sets else "not "), q.trace())
            for e in sets:
                c.check("heapbits", name, U(e.args[3]) == ("a", 1) and mentions_field(e.args[2], "obj_size"), "%s:args" % name, e.loc,
                        "heap bits set with %s for %s bytes" % (show(e.args[3]), show(e.args[2])), q.trace())
            for e in q.ev:
                if e.k == "call" and e.name == "make_spanclass":
                    ns = U(e.args[1])
                    val = const(ns)
                    v = None if val is None else bool(val)
                    if v is None and ns[0] == "not":
                        pass
                    if v is not None:
                        c.check("heapbits", name, v == (not need), "%s:class" % name, e.loc, "object %s references goes into a %s span" % ("with" if need else "without", "unscanned" if v else "scanned"), q.trace())
                    else:
                        ok = mentions_field(ns, "last_ptr") or any(x[0] in ("not", "phi", "sel") for x in subexprs(ns)) or True
                        c.ok("heapbits", name)
    f = p.need("heap_arena_bits_set")
    c.unit(f.name)
    batch = "heap_arena_bits_batch_handle"
    for q in Walker(p, vn=True, loops=2, inline=lambda g: False, pure=PURE | {"arena_index", "arena_bits_index", "bitmap_test"}).paths(f):
        if q.dead:
            continue
        isarr = arrbits(p, q)
        bs = [e for e in q.ev if e.k == "call" and e.name == batch]
        word = [e for e in q.ev if e.k == "call" and e.name in ("bitmap_set", "bitmap_clear")]
        if not word and any(const(e.args[2]) == 0 for e in bs):
            e = bs[0]
            ok = isarr and U(e.args[0]) == ("a", 0) and linear(U(e.args[1])) == linear(("bin", "add", ("a", 0), ("a", 2)))
            c.check("heapbits", f.name, ok, "array", e.loc, "all words are marked from %s to %s%s" % (show(e.args[0]), show(e.args[1]), "" if isarr else " for a type with a map of its own"), q.trace())
            continue
        c.check("heapbits", f.name, not isarr, "array-missed", q.end_loc(), "an array of references made at run time is not marked completely", q.trace())
        # words below last_ptr copied one by one, the rest cleared
        clr = [e for e in bs if const(e.args[2]) not in (0, None)]
        okc = any(is_lastptr(e.args[0]) and linear(U(e.args[1])) == linear(("bin", "add", ("a", 0), ("a", 2))) for e in clr)
        c.check("heapbits", f.name, okc, "clear", q.end_loc(), "words behind the last reference keep the bits of the object that was there before", q.trace())
        done = 0
        n = 0
        for k, e in enumerate(q.ev):
            if e.k == "assume":
                x = U(e.cond)
                if x[0] == "call" and x[1] == "bitmap_test" or (x[0] == "cmp" and any(y[0] == "call" and y[1] == "bitmap_test" for y in subexprs(x))):
                    t = next(y for y in subexprs(x) if y[0] == "call" and y[1] == "bitmap_test")
                    set_ = truth_bool(x, e.truth)
                    nxt = next((z for z in q.ev[k + 1:] if z.k == "call" and z.name in ("bitmap_set", "bitmap_clear")), None)
                    idx = const(t[4])
                    c.check("heapbits", f.name, idx == n, "order", e.loc, "word %d takes bit %s of the map" % (n, show(t[4])), q.trace())
                    ok = nxt is not None and nxt.name == ("bitmap_set" if set_ else "bitmap_clear")
                    c.check("heapbits", f.name, ok, "copy:%s" % bool(set_), e.loc, "map bit is %s but the heap bit is %s" % ("set" if set_ else "clear", nxt.name if nxt else "untouched"), q.trace())
                    if nxt is not None:
                        at = [y for y in subexprs(U(nxt.args[1])) if y[0] == "call" and y[1] == "arena_bits_index"]
                        want = linear(("bin", "add", ("a", 0), ("c", 8 * n)))
                        c.check("heapbits", f.name, bool(at) and linear(U(at[0][4])) == want, "place", nxt.loc, "bit %d of the map goes to the heap bit of %s" % (n, show(at[0][4]) if at else "?"), q.trace())
                    n += 1
        last = [e for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and is_lastptr_any(U(e.cond))]
        ends = [e for e in last if U(e.cond)[1] in ("ult", "ugt", "ule", "uge", "slt", "sgt", "ne", "eq")]
        c.check("heapbits", f.name, bool(ends), "bound", q.end_loc(), "words are copied up to a bound that is not the last reference of the map", q.trace())
        src = [U(t[3]) for e in q.ev if e.k == "assume" for t in subexprs(U(e.cond)) if t[0] == "call" and t[1] == "bitmap_test"]
        inline_map = any(e.k == "assume" and mentions_field(e.cond, "malloc_gc_bits_offset") and truth_bool(U(e.cond), e.truth) and U(e.cond)[0] == "cmp" and U(e.cond)[1] == "eq" for e in q.ev)
        for s in src:
            own = any(x[0] == "fld" and x[3] == "gc_bits" for x in subexprs(s))
            stored = any(x[0] == "ld" and (key_of(x) or (0, 0))[1] == "malloc_gc_bits_offset" for x in subexprs(s)) and not own
            c.check("heapbits", f.name, own if inline_map else stored, "source:%s" % inline_map, f.loc, "the map is read from %s" % show(s), q.trace())
    # ranges: every word of [start, end)
    f = p.need("gc_malloc")
    for q in Walker(p, vn=True, inline=lambda g: False).paths(f):
        for e in q.ev:
            if e.k == "call" and e.name == "rti_gc_malloc":
                t = U(e.args[1])
                c.check("alloc", f.name, t[0] == "call" and t[1].startswith("sc_map_get") and any(U(x) == ("a", 0) for x in t[3:]), "gc_malloc:type", e.loc, "the descriptor is not the one of the requested hash", q.trace())
    f = p.need("rti_gc_malloc")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda g: False).paths(f):
        if q.dead:
            continue
        a = [e for e in q.ev if e.k == "call" and e.name in ("std_malloc", "large_malloc")]
        ok = len(a) == 1 and U(a[0].args[0]) == ("a", 0) and U(a[0].args[1]) == ("a", 1)
        c.check("alloc", f.name, ok, "dispatch", q.end_loc(), "size or descriptor is changed on the way to the allocator", q.trace())


def truth_bool(x, truth):
    """truth of the tested value itself"""
    t = bool(truth)
    if x[0] == "cmp" and const(x[3]) == 0:
        return t if x[1] == "ne" else not t
    return t


def arrbits(p, q):
    kind = lp = off = None
    for e in q.ev:
        if e.k != "assume":
            continue
        x = U(e.cond)
        if x[0] != "cmp":
            continue
        k = key_of(strip_casts(x[2]))
        if k == ("rtype_t", "kind") and const(x[3]) == p.enum("TYPE_ARR"):
            kind = (x[1] == "eq") == bool(e.truth)
        if k == ("rtype_t", "malloc_gc_bits_offset") and const(x[3]) in (-1, (1 << 64) - 1):
            off = (x[1] == "eq") == bool(e.truth)
    return bool(kind and off)


def is_lastptr(e):
    l = linear(U(e))
    return linear(("a", 0)) is not None and any(x[0] == "ld" and key_of(x) == ("rtype_t", "last_ptr") for x in subexprs(U(e))) and mentions(U(e), ("a", 0))


def is_lastptr_any(x):
    return any(y[0] == "ld" and key_of(y) == ("rtype_t", "last_ptr") for y in subexprs(x))


# ---------------------------------------------------------------- coroutine fields as roots
def roots_of_coroutine(c, p, L):
    want = [(o, path) for o, path in L.refs("coroutine_t")]
    names = {path for _, path in want}
    c.need({"fn", "arg", "future", "error.value", "traces.data"} <= names, "reference fields of coroutine_t: %s" % sorted(names))
    scan = p.need("scan_stack")
    gcw = p.need("gc_work")
    c.unit("gc_work", "scan_stack")
    paths = {}
    ins = ("insert_gc_worklist", "rt_linked_fixalloc_push")
    skip = {"aco.main_co", "aco.share_stack", "next", "aco.ctx"}
    stack = "aco.save_stack.ptr"

    def seen(q, path):
        """the value of field `path` was inserted, or found to be no collected object, or its guard is off"""
        leaf = path.split(".")[-1]
        hit = False
        for e in q.ev:
            if e.k == "call" and e.name in ins and fpath(e.args[1]) == path:
                return True
            if e.k == "assume":
                x = U(e.cond)
                t = bool(e.truth)
                # null, or not inside a span
                y = x
                if y[0] == "cmp" and const(y[3]) == 0:
                    t = t if y[1] == "ne" else not t
                    y = strip_casts(y[2])
                if not t:
                    if fpath(y) == path:
                        return True
                    if y[0] == "call" and y[1] == "span_of" and fpath(y[3]) == path:
                        return True
                    if path.startswith("error.") and fpath(y) == "has_error":
                        return True
                if path == stack and x[0] == "cmp" and any(fpath(z) == "aco.save_stack.sz" for z in subexprs(x)):
                    hit = True
        return False

    def fpath(e):
        e = strip_all(e)
        if e[0] != "ld":
            return None
        a = strip_casts(e[1])
        out = []
        while a[0] == "fld":
            if a[3] != "<anon>" and not (a[2] == "value_casting"):
                out.append(a[3])
            st = a[2]
            a = strip_casts(a[1])
        return ".".join(reversed(out)) if out and st == "coroutine_t" else None

    w = Walker(p, vn=True, loops=0, inline=lambda g: False, pure=PURE | {"find_fn", "fetch_addr_value"} | set(ins), max_paths=60000)
    sseen = {}
    n = 0
    for q in w.paths(scan):
        if q.dead:
            continue
        n += 1
        for path in names - skip - {stack}:
            ok = seen(q, path)
            if path not in sseen:
                sseen[path] = [True, None]
            if not ok:
                sseen[path][0] = False
                sseen[path][1] = sseen[path][1] or q
        sv = any(e.k == "call" and e.name in ins and fpath(e.args[1]) == stack for e in q.ev)
        if not sv:
            # only if the stack is the embedded one or absent
            off = False
            for e in q.ev:
                if e.k == "assume":
                    x = U(e.cond)
                    if x[0] == "cmp" and any(fpath(z) == "aco.save_stack.sz" for z in subexprs(x)):
                        small = (x[1] in ("ugt", "sgt", "uge") and not e.truth) or (x[1] in ("ule", "sle", "ult", "slt") and e.truth)
                        off = off or small
                    if (fpath(x) == stack and not e.truth) or (x[0] == "cmp" and fpath(x[2]) == stack and const(x[3]) == 0 and (x[1] == "ne") != bool(e.truth)):
                        off = True
                    if off:
                        break
            c.check("roots", "scan_stack", off, stack, q.end_loc(), "the saved stack of a coroutine is not kept", q.trace())
        else:
            c.ok("roots", "scan_stack")
    c.need(n > 4, "paths of scan_stack")
    gseen = {}
    g = Walker(p, vn=True, loops=1, inline=lambda g: False, pure=PURE | set(ins) | {"assertf"}, max_paths=60000)
    m = 0
    for q in g.paths(gcw):
        dead = False
        live = False
        for e in q.ev:
            if e.k == "assume":
                x = U(e.cond)
                if x[0] == "cmp" and fpath(x[2]) == "status" and const(x[3]) == p.enum("CO_STATUS_DEAD"):
                    if (x[1] == "eq") == bool(e.truth):
                        dead = True
                    else:
                        live = True
        if dead or not live:
            continue
        m += 1
        scanned = any(e.k == "call" and e.name == "scan_stack" for e in q.ev)
        uninit = any(e.k == "assume" and fpath(strip_casts(U(e.cond)[2]) if U(e.cond)[0] == "cmp" else U(e.cond)) == "aco.inited" for e in q.ev)
        black = any(e.k == "assume" and U(e.cond)[0] == "cmp" and fpath(U(e.cond)[2]) == "gc_black" and (U(e.cond)[1] == "eq") == bool(e.truth) for e in q.ev)
        for path in names - skip - {stack}:
            here = seen(q, path)
            inscan = sseen[path][0]
            # fields only set while the coroutine runs need no scan before it has started
            late = path in ("waiting",) or path.startswith(("error", "traces"))
            if scanned:
                ok = here or inscan
            elif black:
                ok = True if late else (here or inscan)
            else:
                ok = here or late
            tr = sseen[path][1].trace() if sseen[path][1] is not None and scanned else q.trace()
            c.check("roots", "gc_work", ok, path, q.end_loc(), "%s of a coroutine is not handed to the collector" % path, tr)
    c.need(m >= 3, "live coroutine paths of gc_work")


# ---------------------------------------------------------------- maps made by the compiler
R = ("al", -1, "result", "result")
REPR = {"TYPE_STRING": "n_vec_t", "TYPE_VEC": "n_vec_t", "TYPE_MAP": "n_map_t", "TYPE_SET": "n_set_t", "TYPE_CHAN": "n_chan_t", "TYPE_INTERFACE": "n_interface_t",
        "TYPE_FN": "n_fn_t", "TYPE_ANY": "n_any_t", "TYPE_UNION": "n_union_t", "TYPE_TAGGED_UNION": "n_tagged_union_t", "TYPE_PTR": None, "TYPE_REF": None, "TYPE_ANYPTR": None}


def builtins(c, p, L):
    f = p.need("reflect_type")
    c.unit(f.name)
    leafs = {}
    kinds = {p.enum(k): k for k in list(REPR) + ["TYPE_ARR", "TYPE_TUPLE", "TYPE_STRUCT"]}
    # which builder describes which kind
    for q in Walker(p, vn=True, blocks=True, sret_local=True, inline=lambda g: False, loops=0).paths(f):
        if q.dead:
            continue
        eq = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") == bool(e.truth)]
        ne = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") != bool(e.truth)]
        b = [e for e in q.ev if e.k == "call" and e.name and e.name.startswith("rtype_")]
        for kv, kn in kinds.items():
            if (eq and kv not in eq) or kv in ne:
                continue
            c.check("builtin", kn, len(b) >= 1 and b[-1].name != "rtype_origin", "%s:none" % kn, q.end_loc(), "values of kind %s are described as plain data" % kn, q.trace())
            if b:
                leafs.setdefault(kn, set()).add(b[-1].name)
        for e in q.ev:
            pass
    c.need(len(leafs) >= 14, "type kinds described: %s" % sorted(leafs))
    for kn, names in sorted(leafs.items()):
        if kn not in REPR:
            for n in sorted(names):
                whole(c, p, kn, p.need(n))
            continue
        for n in sorted(names):
            g = p.need(n)
            if n == "rtype_origin":
                continue
            c.unit(n)
            one_builtin(c, p, L, kn, g)


def whole(c, p, kn, g):
    """array, tuple and struct descriptors: the map is the one the member marking filled, kept in full width"""
    c.unit(g.name)
    leaf = LEAF[kn]
    for q in Walker(p, vn=True, blocks=True, sret_local=True, loops=0, inline=lambda h: h.file == "src/rtype.h" and h.name not in LEAF.values() and h.name != "type_hash", pure=PURE).paths(g):
        if q.dead:
            continue
        v = lambda n: q.value_at(("fld", R, "rtype_t", n))
        marks = [e for e in q.ev if e.k == "call" and e.name == leaf]
        empty = any(e.k == "assume" and U(e.cond)[0] == "cmp" and mentions_field(U(e.cond)[2], "storage_size") and const(U(e.cond)[3]) == 0 and
                    (U(e.cond)[1] == "eq") == bool(e.truth) and U(e.cond)[1] in ("eq", "ne") for e in q.ev)
        if empty and not marks:
            continue
        if not c.check("aggregate", g.name, len(marks) == 1, "%s:marks" % g.name, q.end_loc(), "the members of a %s are not marked" % kn, q.trace()):
            continue
        m = marks[0]
        off = v("malloc_gc_bits_offset")
        c.check("aggregate", g.name, off is not None and U(m.args[0]) == U(off), "%s:place" % g.name, m.loc, "the recorded map is not the one that was filled", q.trace())
        st = strip_casts(m.args[1])
        before = [e for e in q.ev[:q.index(m)] if e.k == "store" and strip_casts(e.addr) == st]
        c.check("aggregate", g.name, bool(before) and const(before[-1].val) == 0, "%s:start" % g.name, m.loc, "marking does not start at offset 0", q.trace())
        lp = v("last_ptr")
        narrow = lp is None or any(x[0] == "cast" and x[1] == "trunc" for x in subexprs(lp))
        c.check("aggregate", g.name, lp is not None and U(lp) == U(m.res) and not narrow, "%s:last" % g.name, q.end_loc(), "the end of the references is recorded as %s" % (show(lp) if lp else None), q.trace())
        put = [x for x in subexprs(U(off)) if x[0] == "call" and x[1] == "calc_gc_bits_size"] if off is not None else []
        hs = v("gc_heap_size")
        ok = bool(put) and hs is not None and (U(put[0][3]) == U(hs) or linear(U(put[0][3])) == linear(U(hs)))
        c.check("aggregate", g.name, ok, "%s:room" % g.name, q.end_loc(), "room for the map is computed from %s, the object has %s bytes" % (show(put[0][3]) if put else None, show(hs) if hs else None), q.trace())
        c.check("aggregate", g.name, const(v("kind")) == p.enum(kn), "%s:kind" % g.name, q.end_loc(), "%s is described as another kind" % kn, q.trace())


def fkind(e):
    return (key_of(strip_casts(e)) or (0, 0))[1] == "kind"


def one_builtin(c, p, L, kn, g):
    st = REPR[kn]
    need = [0] if st is None else [o // 8 for o, _ in L.refs(st)]
    flex = kn in ("TYPE_UNION", "TYPE_TAGGED_UNION")
    size = 8 if st is None else L.size(st)
    inl = lambda h: h.file == "src/rtype.h" and h.name not in ("type_hash",)
    for q in Walker(p, vn=True, blocks=True, sret_local=True, loops=2, inline=inl, pure=PURE).paths(g):
        if q.dead:
            continue
        v = lambda n: q.value_at(("fld", R, "rtype_t", n))
        off = v("malloc_gc_bits_offset")
        sets = [e for e in q.ev if e.k == "call" and e.name == "bitmap_set"]
        here = [e for e in sets if off is not None and mentions(U(e.args[0]), U(off))]
        c.check("builtin", kn, len(here) == len(sets), "%s:place" % kn, g.loc, "map bits of %s go elsewhere than the recorded map" % kn, q.trace())
        bits = [const(e.args[1]) for e in here]
        kind = const(v("kind"))
        c.check("builtin", kn, kind == p.enum(kn), "%s:kind" % kn, g.loc, "%s is described as another kind" % kn, q.trace())
        if not flex:
            c.check("builtin", kn, None not in bits and set(need) <= set(bits), "%s:bits" % kn, g.loc,
                    "words %s of %s hold references, the map marks %s" % (need, kn, sorted(b for b in bits if b is not None)), q.trace())
            lp = const(v("last_ptr"))
            c.check("builtin", kn, lp is not None and lp >= (max(need) + 1) * 8, "%s:last" % kn, g.loc, "the map of %s is cut off at byte %s, the last reference ends at %d" % (kn, lp, (max(need) + 1) * 8), q.trace())
            hs = v("gc_heap_size")
            c.check("builtin", kn, const(hs) == size or (const(hs) is None and mentions_field(hs, "storage_size")), "%s:size" % kn, g.loc, "%s objects get %s bytes, the representation has %d" % (kn, show(hs), size), q.trace())
        else:
            hs = v("gc_heap_size")
            c.check("builtin", kn, hs is not None and mentions_field(hs, "storage_size"), "%s:size" % kn, g.loc, "%s objects get %s bytes" % (kn, show(hs)), q.trace())
            flexible(c, kn, kn, g, q, bits, need, v("last_ptr"), 0)


def flexible(c, rid, kn, g, q, bits, need, last, base):
    """all words from the first reference word to the end are marked: consecutive constants, left only when the bound is reached"""
    ok = None not in bits and bits == list(range(bits[0], bits[0] + len(bits))) if bits else True
    c.check("builtin", kn, ok, "%s:consecutive" % kn, g.loc, "%s payload words are marked as %s" % (kn, bits), q.trace())
    nxt = bits[0] + len(bits) if bits and None not in bits else None
    if bits and None not in bits:
        c.check("builtin", kn, bits[0] <= min(need), "%s:first" % kn, g.loc, "marking starts at word %d, the payload starts at word %d" % (bits[0], min(need)), q.trace())
    end_bound(c, "builtin", kn, kn, g, q, nxt)
    if last is not None:
        c.check("builtin", kn, mentions_align(last), "%s:last" % kn, g.loc, "the map of %s is cut off at %s" % (kn, show(last)), q.trace())


def end_bound(c, rid, unit, key, g, q, nxt):
    """the marking loop was left because no word is left: slots <= nxt is a path fact"""
    if nxt is None:
        return
    best = None
    for e in q.ev:
        if e.k != "assume":
            continue
        x = U(e.cond)
        if x[0] != "cmp":
            continue
        op = x[1][1:] if x[1][0] in "su" and x[1] != "sub" else x[1]
        if not e.truth:
            op = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt"}.get(op)
        if op not in ("gt", "ge", "lt", "le"):
            continue
        (ta, ca), (tb, cb) = linear(U(x[2])), linear(U(x[3]))
        d = dict(ta)
        for t, k in tb.items():
            d[t] = d.get(t, 0) - k
        d = {t: k for t, k in d.items() if k}
        k0 = ca - cb
        if len(d) != 1:
            continue
        t, k = next(iter(d.items()))
        if not any(y[0] == "call" and y[1] == "align_up" for y in subexprs(t)):
            continue
        # k*t + k0 op 0
        if k < 0:
            k, k0, op = -k, -k0, {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}[op]
        if op == "le":
            hi = (-k0) // k
        elif op == "lt":
            hi = (-k0 - 1) // k
        else:
            continue
        best = hi if best is None else min(best, hi)
    if best is None:
        c.check(rid, unit, False, "%s:end" % key, g.loc, "marking of payload words is left without having reached the size", q.trace())
    else:
        c.check(rid, unit, best <= nxt, "%s:end" % key, g.loc, "marking of payload words stops at word %d, the union may have %d" % (nxt, best), q.trace())


def mentions_align(e):
    e = U(e)
    al = [y for y in subexprs(e) if y[0] == "call" and y[1] == "align_up"]
    if not al:
        return False
    # value must be slots * 8 with slots = aligned size / 8
    return e[0] == "bin" and (e[1] == "mul" and const(e[3]) == 8 and e[2][0] == "bin" and e[2][1] in ("sdiv", "udiv") and const(e[2][3]) == 8 or e[1] in ("add", "shl")) or e == al[0]


# ---------------------------------------------------------------- aggregates
LEAF = {"TYPE_STRUCT": "rtype_struct_gc_bits", "TYPE_ARR": "rtype_array_gc_bits", "TYPE_TUPLE": "rtype_tuple_gc_bits", "TYPE_UNION": "rtype_union_gc_bits",
        "TYPE_ANY": "rtype_union_gc_bits", "TYPE_TAGGED_UNION": "rtype_tagged_union_gc_bits"}
FIXED = ("TYPE_STRING", "TYPE_VEC", "TYPE_MAP", "TYPE_SET", "TYPE_INTERFACE")
ONEWORD = ("TYPE_PTR", "TYPE_REF", "TYPE_ANYPTR", "TYPE_FN", "TYPE_CHAN")
PLAIN = ("TYPE_INT64", "TYPE_UINT8", "TYPE_BOOL", "TYPE_FLOAT64")


def aggregates(c, p, L):
    kinds = {p.enum(k): k for k in list(LEAF) + list(FIXED) + list(ONEWORD) + list(PLAIN)}
    leaves = set(LEAF.values()) | {"rtype_builtin_gc_bits"}
    for name in ("rtype_struct_gc_bits", "rtype_tuple_gc_bits", "rtype_array_gc_bits"):
        f = p.need(name)
        c.unit(name)
        inl = lambda h: h.file == "src/rtype.h" and h.name not in leaves and h.name != "type_hash"
        covered = set()
        for q in Walker(p, vn=True, blocks=True, loops=1, inline=inl, pure=PURE, max_paths=60000, max_depth=4).paths(f):
            if q.dead:
                continue
            one_aggregate(c, p, L, kinds, f, q, covered)
        miss = set(kinds.values()) - covered
        c.need(not miss, "%s: no path for members of kind %s" % (name, sorted(miss)))
    # union payloads inside aggregates
    for name, kn in (("rtype_union_gc_bits", "TYPE_UNION"), ("rtype_tagged_union_gc_bits", "TYPE_TAGGED_UNION")):
        f = p.need(name)
        c.unit(name)
        need = [o // 8 for o, _ in L.refs(REPR[kn])]
        for q in Walker(p, vn=True, loops=2, pure=PURE).paths(f):
            if q.dead:
                continue
            sets = [e for e in q.ev if e.k == "call" and e.name == "bitmap_set"]
            offs = []
            good = True
            for e in sets:
                l = rel_word(e.args[1])
                offs.append(l)
            c.check("aggregate", name, None not in offs and offs == list(range(offs[0], offs[0] + len(offs))) if offs else True, "%s:consecutive" % name, f.loc, "payload words are marked as %s" % offs, q.trace())
            if offs and None not in offs:
                c.check("aggregate", name, offs[0] <= min(need), "%s:first" % name, f.loc, "marking starts at word %d of the union, its payload at word %d" % (offs[0], min(need)), q.trace())
            ret = [e for e in q.ev if e.k == "ret"][-1]
            st = [e for e in q.ev if e.k == "store" and strip_casts(e.addr) == ("a", 1)]
            okoff = len(st) == 1 and (U(st[0].val)[0] == "bin" and U(st[0].val)[1] == "add" and any(U(x) == ("a", 2) or const(x) == 16 for x in U(st[0].val)[2:]))
            c.check("aggregate", name, okoff, "%s:advance" % name, f.loc, "the member after a union is placed at %s" % (show(st[0].val) if st else "the same offset"), q.trace())
            if offs:
                c.check("aggregate", name, ret.val is not None and any(y[0] == "bin" and y[1] in ("mul", "shl") or y[0] == "call" and y[1] == "align_up" for y in subexprs(U(ret.val))), "%s:last" % name, f.loc, "the end of the last reference of a union is given as %s" % show(ret.val), q.trace())
                if None not in offs:
                    end_bound(c, "aggregate", name, name, f, q, offs[0] + len(offs))
    f = next((g for g in p.unique() if g.name == "rtype_builtin_gc_bits"), None)
    if f is not None:
        c.unit(f.name)
        fixed = {p.enum(k): k for k in FIXED}
        met = set()
        for q in Walker(p, vn=True, loops=3, pure=PURE).paths(f):
            if q.dead:
                continue
            eq = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") == bool(e.truth)]
            ne = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") != bool(e.truth)]
            got = [rel_word(e.args[1]) for e in q.ev if e.k == "call" and e.name == "bitmap_set"]
            ret = [e for e in q.ev if e.k == "ret"][-1].val
            st = [e for e in q.ev if e.k == "store" and strip_casts(e.addr) == ("a", 1)]
            for kv, kn in fixed.items():
                if (eq and kv not in eq) or kv in ne:
                    continue
                met.add(kn)
                need = [o // 8 for o, _ in L.refs(REPR[kn])]
                c.check("aggregate", f.name, set(need) <= set(got), "%s:%s" % (f.name, kn), q.end_loc(), "a member of kind %s has references in words %s, marked are %s" % (kn, need, got), q.trace())
                base = ("ld", ("a", 1), 0)
                d = [x for x in subexprs(U(ret)) if x[0] == "ld" and x[1] == ("a", 1)]
                l = linear(U(ret))
                ok = d and l == linear(("bin", "add", d[0], ("c", 8 * (max(need) + 1)))) or d and any(l == linear(("bin", "add", d[0], ("c", 8 * k))) for k in range(max(need) + 1, 8))
                c.check("aggregate", f.name, bool(ok), "%s:%s:last" % (f.name, kn), q.end_loc(), "the end of the references of a %s member is reported as %s" % (kn, show(ret)), q.trace())
                ok = len(st) == 1 and mentions_field(st[0].val, "storage_size") or len(st) == 1 and any(x[0] == "ld" for x in subexprs(U(st[0].val)))
                c.check("aggregate", f.name, bool(ok), "%s:%s:advance" % (f.name, kn), q.end_loc(), "the offset does not advance over a %s member" % kn, q.trace())
        c.need(met == set(FIXED), "rtype_builtin_gc_bits: kinds %s" % sorted(met))
    f = p.need("type_is_pointer_heap")
    c.unit(f.name)
    for q in Walker(p, vn=True, inline=lambda h: False).paths(f):
        if q.dead:
            continue
        ret = const([e for e in q.ev if e.k == "ret"][-1].val)
        ne = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") != bool(e.truth)]
        heap = any(e.k == "assume" and mentions_field(e.cond, "in_heap") and not truth_bool(U(e.cond), e.truth) for e in q.ev)
        eq = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and fkind(U(e.cond)[2]) and (U(e.cond)[1] == "eq") == bool(e.truth)]
        if ret == 0 and not eq:
            for k in ("TYPE_PTR", "TYPE_REF", "TYPE_ANYPTR"):
                c.check("aggregate", f.name, p.enum(k) in ne, "pointer:%s" % k, f.loc, "a %s counts as plain data" % k, q.trace())
            c.check("aggregate", f.name, heap, "pointer:in_heap", f.loc, "a type whose values live on the heap counts as plain data", q.trace())
        elif ret == 0:
            for k in ("TYPE_PTR", "TYPE_REF", "TYPE_ANYPTR"):
                c.check("aggregate", f.name, p.enum(k) not in eq, "pointer:%s" % k, f.loc, "a %s counts as plain data" % k, q.trace())
    f = p.need("kind_in_heap")
    for q in Walker(p, vn=True, inline=lambda h: False).paths(f):
        if q.dead:
            continue
        r = [e for e in q.ev if e.k == "ret"][-1].val
        ne = [const(U(e.cond)[3]) for e in q.ev if e.k == "assume" and U(e.cond)[0] == "cmp" and (U(e.cond)[1] == "eq") != bool(e.truth)]
        x = U(r)
        if x[0] == "cmp" and x[1] == "eq":
            ne = ne + [const(x[3])]
        if const(r) == 0 or x[0] == "cmp":
            for k in ("TYPE_FN", "TYPE_CHAN"):
                c.check("aggregate", f.name, p.enum(k) in ne, "heap:%s" % k, f.loc, "values of kind %s are not treated as heap references" % k, q.trace())


def mentions_kind(call, b):
    return True


def rel_word(e):
    """constant word distance from *offset/8"""
    l = linear(U(e))
    x = U(e)
    if x[0] == "bin" and x[1] == "add" and const(x[3]) is not None:
        return const(x[3]) if offset_word(x[2]) else None
    if x[0] == "bin" and x[1] == "add" and const(x[2]) is not None:
        return const(x[2]) if offset_word(x[3]) else None
    return 0 if offset_word(x) else None


def offset_word(x):
    return x[0] == "bin" and x[1] in ("sdiv", "udiv", "ashr", "lshr") and const(x[3]) in (8, 3)


def one_aggregate(c, p, L, kinds, f, q, covered):
    # members touched on this path, in order
    members = []
    eqs, nes = {}, {}
    for e in q.ev:
        if e.k != "assume":
            continue
        x = U(e.cond)
        if x[0] == "cmp" and fkind(x[2]) and const(x[3]) is not None:
            b = base_type(x[2])
            if b not in members:
                members.append(b)
            ((eqs if (x[1] == "eq") == bool(e.truth) else nes).setdefault(b, [])).append(const(x[3]))
    leaves = set(LEAF.values()) | {"rtype_builtin_gc_bits"}
    for b in members:
        poss = [kinds[k] for k in kinds if (b not in eqs or k in eqs[b]) and k not in nes.get(b, [])]
        calls = [e for e in q.ev if e.k == "call" and e.name in leaves and any(mentions(U(a), b) or mentions_under(a, b) for a in e.args)]
        if members.index(b) == 0 and len(members) == 1 and not calls:
            calls = [e for e in q.ev if e.k == "call" and e.name in leaves]
        sets = [e for e in q.ev if e.k == "call" and e.name == "bitmap_set"]
        seg = segment(q, b)
        calls = [e for e in seg if e.k == "call" and e.name in leaves]
        sets = [e for e in seg if e.k == "call" and e.name == "bitmap_set"]
        for kn in poss:
            covered.add(kn)
            if kn in LEAF:
                ok = len(calls) == 1 and calls[0].name == LEAF[kn]
                c.check("aggregate", f.name, ok, "%s:%s" % (f.name, kn), q.end_loc(), "a member of kind %s is marked by %s" % (kn, calls[0].name if calls else "nothing"), q.trace())
            elif kn in FIXED and calls:
                ok = len(calls) == 1 and calls[0].name == "rtype_builtin_gc_bits" and mentions_kind(calls[0], b)
                c.check("aggregate", f.name, ok, "%s:%s" % (f.name, kn), q.end_loc(), "a member of kind %s is marked by %s" % (kn, calls[0].name), q.trace())
            elif kn in FIXED:
                need = [o // 8 for o, _ in L.refs(REPR[kn])]
                got = [rel_word(e.args[1]) for e in sets]
                c.check("aggregate", f.name, not calls and set(need) <= set(got), "%s:%s" % (f.name, kn), q.end_loc(),
                        "a member of kind %s has references in words %s, marked are %s" % (kn, need, got), q.trace())
            elif kn in ONEWORD:
                # decided by the predicate on this very type
                yes = None
                for e in seg:
                    if e.k == "assume":
                        x = U(e.cond)
                        t = next((y for y in subexprs(x) if y[0] == "call" and y[1] == "type_is_pointer_heap"), None)
                        if t is not None:
                            yes = truth_bool(x, e.truth)
                if yes is None:
                    c.check("aggregate", f.name, 0 in [rel_word(e.args[1]) for e in sets], "%s:%s" % (f.name, kn), q.end_loc(), "a member of kind %s is not marked" % kn, q.trace())
                elif yes:
                    c.check("aggregate", f.name, [rel_word(e.args[1]) for e in sets] == [0], "%s:%s" % (f.name, kn), q.end_loc(), "a reference member of kind %s is not marked at its place" % kn, q.trace())
        # place: the bit index comes from the offset the member gets, and the offset advances by its size
        for e in sets:
            at = next((y[2] for y in subexprs(U(e.args[1])) if offset_word(y)), None)
            adv = [s for s in seg if s.k == "store" and strip_casts(s.addr) == ("a", 1)]
            ok = at is not None and any(linear(U(s.val)) == linear(("bin", "add", at, ("x",))) or (U(s.val)[0] == "bin" and U(s.val)[1] == "add" and at in (U(s.val)[2], U(s.val)[3])) for s in adv)
            c.check("aggregate", f.name, ok, "%s:place" % f.name, e.loc, "the marked word is computed from %s, the member's own offset is another" % (show(at) if at else "?"), q.trace())
            c.check("aggregate", f.name, mentions(U(e.args[0]), ("a", 0)), "%s:map" % f.name, e.loc, "the bit is set in another map", q.trace())
        for e in calls:
            c.check("aggregate", f.name, U(e.args[0]) == ("a", 0) and U(e.args[1]) == ("a", 1), "%s:nested" % f.name, e.loc, "a nested member is marked in another map or at another offset", q.trace())
    # alignment of members inside structs and tuples
    if f.name != "rtype_array_gc_bits":
        for b in members:
            seg = segment(q, b, before=True)
            al = [e for e in seg if e.k == "store" and strip_casts(e.addr) == ("a", 1) and U(e.val)[0] == "call" and U(e.val)[1] == "align_up" and mentions_field(U(e.val)[4], "align")]
            c.check("aggregate", f.name, bool(al), "%s:align" % f.name, q.end_loc(), "the offset of a member is not aligned as the member is", q.trace())
    # the reported end covers every marked member
    ret = [e for e in q.ev if e.k == "ret"][-1].val
    vals = [e.res for e in q.ev if e.k == "call" and e.name in leaves]
    for v in vals:
        uv = U(v)
        ok = U(ret) == uv or known_le(q, uv, U(ret))
        c.check("aggregate", f.name, ok, "%s:last" % f.name, q.end_loc(), "the reported end of references %s may lie before that of a member (%s)" % (show(ret), show(v)), q.trace())
    for b in members:
        seg = segment(q, b)
        sets = [e for e in seg if e.k == "call" and e.name == "bitmap_set"]
        ats = [next((y[2] for y in subexprs(U(e.args[1])) if offset_word(y)), None) for e in sets]
        rel = [rel_word(e.args[1]) for e in sets]
        if not sets or None in ats or None in rel:
            continue
        want = [linear(("bin", "add", ats[0], ("c", 8 * (max(rel) + 1))))]
        want += [linear(U(e.val)) for e in seg if e.k == "store" and strip_casts(e.addr) == ("a", 1)]
        ok = linear(U(ret)) in want or any(w in want for w in known_below(q, U(ret)))
        c.check("aggregate", f.name, ok, "%s:last-own" % f.name, q.end_loc(), "the reported end of references %s may lie before a marked member" % show(ret), q.trace())


def known_below(q, b):
    """linear forms known to be at most b"""
    out = []
    for e in q.ev:
        if e.k != "assume":
            continue
        x = U(e.cond)
        if x[0] == "cmp":
            for l, r in ((U(x[2]), U(x[3])), (U(x[3]), U(x[2]))):
                if r == b and known_le_ev(e, l, r):
                    out.append(linear(l))
    return out


def known_le_ev(ev, a, b):
    class Q:
        pass
    z = Q()
    z.ev = [ev]
    return known_le(z, a, b)


def known_le(q, a, b):
    for e in q.ev:
        if e.k != "assume":
            continue
        x = U(e.cond)
        if x[0] != "cmp":
            continue
        op, l, r = x[1], U(x[2]), U(x[3])
        t = bool(e.truth)
        if op in ("sgt", "ugt") and not t and l == a and r == b:
            return True
        if op in ("sgt", "ugt") and t and l == b and r == a:
            return True
        if op in ("slt", "ult", "sle", "ule") and t and l == a and r == b:
            return True
        if op in ("slt", "ult", "sle", "ule") and not t and l == b and r == a:
            return True
        if op in ("sge", "uge") and t and l == b and r == a:
            return True
        if op in ("sge", "uge") and not t and l == a and r == b:
            return True
    return False


def base_type(e):
    e = strip_casts(e)
    return U(e[1][1])


def mentions_under(e, b):
    return mentions(U(e), b)


def segment(q, b, before=False):
    """events from the first test of member b to the first test of the next member"""
    out = []
    on = False
    pre = []
    for e in q.ev:
        if e.k == "assume":
            x = U(e.cond)
            if x[0] == "cmp" and fkind(x[2]) and const(x[3]) is not None:
                same = base_type(x[2]) == b
                if on and not same:
                    break
                if same and not on:
                    on = True
                elif not same:
                    pre = []
        if on:
            out.append(e)
        else:
            pre.append(e)
    return (pre + out) if before else out


main("R04", TECH, body)
