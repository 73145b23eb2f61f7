"""R24: string comparison is one total order over full content; construction keeps every byte; C strings are terminated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
from strings import Case, SG, key_equality

TECH = ("abstract truth-table extraction over every path of the six comparison operators (content sign x length order), "
        "tiling analysis of the copies that build a string, and a use lint for C-string functions on string data (LLVM IR)")

PURE = {"memcmp", "strlen", "rti_array_new", "mallocz", "malloc", "mutex_lock", "mutex_unlock", "rti_gc_malloc", "free", "coroutine_get"}
STOP = PURE | {"sc_map_get_sv", "sc_map_put_sv", "rti_throw", "rti_co_throw", "itoa", "utoa", "hash_string"}
CMPS = {"string_ee": lambda o: o == 0, "string_ne": lambda o: o != 0, "string_lt": lambda o: o < 0, "string_le": lambda o: o <= 0,
        "string_gt": lambda o: o > 0, "string_ge": lambda o: o >= 0}
def cstr_name(n):
    return n in ("strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strncat", "strdup", "strndup", "strchr", "strstr", "strcoll",
                 "strcasecmp", "hash_string", "strnlen")


def body(c):
    c.rule("order", "for every combination of content sign and length order, every path of each comparison operator returns the value of one total order", 54)
    c.rule("cmp-size", "content is compared over exactly the shorter of both lengths (never past an end, never stopping early)", 6)
    c.rule("bytes", "a new string gets exactly the given bytes: copies tile [0,length), the length field is the sum, the storage has room for the terminator", 4)
    c.rule("terminated", "no byte other than a zero behind the content is written after the copy, so data is zero-terminated", 4)
    c.rule("intern", "a pooled string stands in for the requested one only if length and every byte agree; the pool key stays valid", 2)
    c.rule("key", "key equality of map/set compares length and all bytes (strings) or the whole storage (others)", 2)
    c.rule("cstring-use", "no C-string function measures, compares or copies the bytes of a string value", 1)
    c.rule("write-size", "string data handed to write/send is accompanied by the same string's length", 1)
    c.rule("literal", "the compiler carries literals by length: size of the emitted bytes, folding, copying and sharing use the whole content", 6)
    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))

    def inl(g):
        return g.name not in STOP and (g.file.startswith("runtime/nutils/") or g.name.startswith(("string", "rt_string"))) and not g.name.startswith(("DEBUG", "debug"))

    W = lambda **k: Walker(p, inline=inl, vn=True, pure=PURE, blocks=True, sret_local=True, loops=1, **k)

    def ordering():
        for name, want in CMPS.items():
            f = p.need(name)
            c.unit(f)
            A, B = ("a", 0), ("a", 1)
            for q in W().paths(f):
                if q.dead:
                    continue
                tr = q.trace()
                ret = q.ev[-1].val
                for m in (-1, 0, 1):
                    for l in (-1, 0, 1):
                        K = Case(m, l, A, B)
                        feasible, unknown = True, None
                        for e in q.ev:
                            if e.k != "assume":
                                continue
                            t = K.truth(e.cond)
                            if t is None:
                                unknown = e
                                continue
                            if isinstance(t, tuple):
                                if t[0] == "badsize":
                                    unknown = e
                                continue
                            if t != bool(e.truth):
                                feasible = False
                                break
                        if not feasible:
                            continue
                        o = m if m else l
                        if unknown is not None:
                            t = K.truth(unknown.cond)
                            if t and t[0] == "badsize":
                                c.bad("cmp-size", "%s|size" % name, unknown.loc, "%s compares %s bytes, not the shorter length" % (name, t[1]), tr)
                            else:
                                c.bad("order", "%s|cond" % name, unknown.loc, "%s decides on %s, which is not the content or length order" % (name, show(unknown.cond)[:80]), tr)
                            continue
                        r = K.truth(ret)
                        if isinstance(r, tuple) and r[0] == "badsize":
                            c.bad("cmp-size", "%s|size" % name, q.end_loc(), "%s compares %s bytes, not the shorter length" % (name, r[1]), tr)
                        elif not isinstance(r, bool):
                            c.bad("order", "%s|ret" % name, q.end_loc(), "%s returns %s, which is not derived from content and length order" % (name, show(ret)[:80]), tr)
                        else:
                            c.check("order", "%s content%s length%s" % (name, SG[m], SG[l]), r == want(o), "%s|content%s length%s" % (name, SG[m], SG[l]),
                                    q.end_loc(), "%s answers %s when content compares %s and length %s" % (name, r, SG[m], SG[l]), tr)
                for e in q.calls("memcmp", "bcmp"):
                    c.ok("cmp-size", "%s %s" % (name, show(e.args[2])))

    c.section(ordering)

    # ------------------------------------------------------------------ construction
    def norm(x):
        return linear(unversion(strip_all(x)))

    def lin_eq(a, b):
        return norm(a) == norm(b)

    def sub(a, b):
        return norm(("bin", "sub", a, b))

    ALLOC = {"rti_array_new": 1, "mallocz": 0, "rti_gc_malloc": 0}

    def strres(q, R, S):
        return q.value_at(("fld", R, S, "data")), q.value_at(("fld", R, S, "length")), q.value_at(("fld", R, S, "capacity")), q.value_at(("fld", R, S, "element_size"))

    def struct_name(f):
        for i in f.insts():
            if i.op == "gep":
                for st in i.x:
                    if st[0] == "f" and st[2] == "element_size":
                        return st[1]
        return None

    S = None
    for nm in ("string_new", "string_concat", "string_new_with_pool"):
        S = S or struct_name(p.need(nm))
    c.need(S, "string structure not recognised")

    def raised(q):
        return any(e.k == "call" and e.name in ("rti_throw", "rti_co_throw") for e in q.ev)

    def construct(name, parts, R=("al", -1, "result", "result"), pooled=False):
        """parts: [(source expr, length expr)] over the arguments"""
        f = p.need(name)
        c.unit(f)
        n = 0
        for q in W().paths(f):
            if q.dead or raised(q):
                continue
            n += 1
            tr = q.trace()
            data, length, cap, es = strres(q, R, S)
            want_len = ("c", 0)
            for _, l in parts:
                want_len = ("bin", "add", want_len, l)
            if data is None or length is None:
                c.bad("bytes", "%s|fields" % name, q.end_loc(), "%s returns without setting data and length" % name, tr)
                continue
            d = strip_casts(data)
            # pooled copy
            fd = fldname(d)
            if fd and fd[1] == "data" and fd[0][0] == "call":
                P = fd[0]
                okl = okm = False
                for e in q.ev:
                    if e.k != "assume":
                        continue
                    cd, t = truth_of(e)
                    if cd[0] != "cmp":
                        continue
                    x = fldname(cd[2])
                    if x and x == (P, "length") and lin_eq(cd[3], want_len) and (cd[1] == "eq") == t and cd[1] in ("eq", "ne"):
                        okl = True
                    y = fldname(cd[3])
                    if y and y == (P, "length") and lin_eq(cd[2], want_len) and (cd[1] == "eq") == t and cd[1] in ("eq", "ne"):
                        okl = True
                    m = strip_casts(cd[2])
                    if m[0] == "call" and m[1] in ("memcmp", "bcmp") and const(cd[3]) == 0 and cd[1] in ("eq", "ne") and (cd[1] == "eq") == t:
                        ops = [fldname(m[3]), fldname(m[4])]
                        src = [strip_casts(m[3]), strip_casts(m[4])]
                        if (P, "data") in ops and unversion(strip_all(parts[0][0])) in [unversion(strip_all(x)) for x in src] and (
                                lin_eq(m[5], want_len) or fldname(m[5]) == (P, "length")):
                            okm = True
                c.check("intern", "%s pooled result" % name, okl and okm and len(parts) == 1, "%s|pooled" % name, q.end_loc(),
                        "%s returns a pooled string without having compared %s" % (name, "its length" if not okl else "every byte"), tr)
                continue
            if d[0] != "call" or d[1] not in ALLOC:
                c.bad("bytes", "%s|data" % name, q.end_loc(), "%s returns data %s that is not a fresh buffer" % (name, show(d)[:60]), tr)
                continue
            room = d[3 + ALLOC[d[1]]]
            c.check("bytes", "%s length" % name, lin_eq(length, want_len), "%s|length" % name, q.end_loc(),
                    "%s sets length %s, expected %s" % (name, show(length), show(want_len)), tr)
            t, k = sub(room, want_len)
            c.check("bytes", "%s room" % name, not t and k >= 1, "%s|room" % name, q.end_loc(),
                    "%s allocates %s bytes for content %s plus terminator" % (name, show(room), show(want_len)), tr)
            if cap is None:
                c.bad("bytes", "%s|capacity" % name, q.end_loc(), "%s leaves the capacity unset" % name, tr)
            else:
                t, k = sub(room, cap)
                t2, k2 = sub(cap, want_len)
                c.check("bytes", "%s capacity" % name, not t and k >= 0 and not t2 and k2 >= 0, "%s|capacity" % name, q.end_loc(),
                        "%s records capacity %s for %s allocated bytes" % (name, show(cap), show(room)), tr)
            c.check("bytes", "%s element size" % name, es is not None and (const(es) == 1 or (key_of(es) or ("", ""))[1] == "storage_size"),
                    "%s|element_size" % name, q.end_loc(), "%s leaves the element size unset" % name, tr)
            h = q.value_at(("fld", R, S, "hash"))
            c.check("bytes", "%s type" % name, h is not None and const(h) != 0, "%s|hash" % name, q.end_loc(), "%s leaves the type of the string unset" % name, tr)
            # copies into the buffer, in order
            copies = []
            for e in q.ev:
                if is_copy(e):
                    t, k = sub(e.args[0], d)
                    if unversion(d) in [unversion(x) for x in subexprs(strip_all(e.args[0]))] and const(e.args[2]) != 48:
                        copies.append((t, k, e))
            off = ("c", 0)
            used = []
            for i, (src, ln) in enumerate(parts):
                hit = None
                for t, k, e in copies:
                    if (t, k) == norm(off) and e not in used and norm(e.args[1]) == norm(src) and lin_eq(e.args[2], ln):
                        hit = e
                if hit is None:
                    c.bad("bytes", "%s|part%d" % (name, i), q.end_loc(), "%s does not copy all of part %d (%s bytes of %s) to its place" % (
                        name, i + 1, show(ln), show(src)), tr)
                else:
                    used.append(hit)
                    c.ok("bytes", "%s part %d" % (name, i))
                off = ("bin", "add", off, ln)
            for t, k, e in copies:
                if e not in used:
                    c.bad("bytes", "%s|extra" % name, e.loc, "%s writes over the content with another copy" % name, tr)
            # byte stores into the buffer
            good = True
            for e in q.ev:
                if e.k == "store" and unversion(d) in [unversion(x) for x in subexprs(strip_all(resolve(e.addr, data, R)))]:
                    a = strip_casts(e.addr)
                    if a[0] == "fld":
                        continue
                    t, k = sub(("bin", "sub", resolve(e.addr, data, R), d), want_len)
                    tc, kc = sub(room, want_len)
                    if t or k < 0 or (not tc and k >= kc) or (k == 0 and const(e.val) != 0):
                        good = False
                        c.bad("terminated", "%s|store" % name, e.loc, "%s stores %s at data+%s: not the terminator behind the content" % (name, show(e.val), show(a)[:40]), tr)
            if good:
                c.ok("terminated", name)
        c.need(n, "%s has no returning path" % name)

    def resolve(e, data, R):
        """a store through result->data is a store through the buffer"""
        if not isinstance(e, tuple):
            return e
        if e[0] == "ld" and fldname(e) == (R, "data"):
            return data
        return tuple(resolve(x, data, R) if isinstance(x, tuple) else x for x in e)

    def ldf(base, fld):
        return ("ld", ("fld", base, S, fld), 0)

    a1, a2 = ("a", 1), ("a", 2)
    c.section(construct, "string_new", [(a1, a2)])
    c.section(construct, "string_new_with_pool", [(a1, a2)])
    c.section(construct, "rt_string_ref_new", [(a1, a2)])
    c.section(construct, "string_concat", [(ldf(a1, "data"), ldf(a1, "length")), (ldf(a2, "data"), ldf(a2, "length"))])
    c.section(construct, "string_to_vec", [(ldf(a1, "data"), ldf(a1, "length"))])
    c.section(construct, "vec_to_string", [(ldf(a1, "data"), ldf(a1, "length"))])
    for nm, parts in (("rt_string_concat_out", [a1, a2]), ("rt_string_to_vec_out", [a1]), ("rt_vec_to_string_out", [a1])):
        def outw(nm=nm, parts=parts):
            f = p.need(nm)
            c.unit(f)
            for q in Walker(p, inline=inl, vn=True, pure=PURE, blocks=True, sret_local=True).paths(f):
                if q.dead:
                    continue
                d = q.value_at(("fld", ("a", 0), S, "data"))
                l = q.value_at(("fld", ("a", 0), S, "length"))
                want = ("c", 0)
                for b in parts:
                    want = ("bin", "add", want, ldf(b, "length"))
                pooled = l is not None and fldname(l) and fldname(l)[0][0] == "call"
                c.check("bytes", nm, d is not None and l is not None and (pooled or lin_eq(l, want)), "%s|out" % nm, q.end_loc(),
                        "%s does not store a string of length %s to its result" % (nm, show(want)), q.trace())
        c.section(outw)

    def length():
        f = p.need("rt_string_length")
        for q in W().paths(f):
            if not q.dead:
                c.check("bytes", "rt_string_length", fldname(q.ev[-1].val) == (("a", 0), "length"), "rt_string_length|ret", q.end_loc(),
                        "rt_string_length returns %s" % show(q.ev[-1].val), q.trace())
        f = p.need("rt_string_ref")
        for q in W().paths(f):
            if q.dead:
                continue
            v = strip_casts(q.ev[-1].val)
            if fldname(v) == (("a", 0), "data"):
                nn = any(fldname(a) == (("a", 0), "data") and pr == "ne" and const(b) == 0 for pr, a, b, _ in known(q))
                c.check("terminated", "rt_string_ref", nn, "rt_string_ref|null", q.end_loc(), "a string without data is handed out as a null pointer", q.trace())
            else:
                c.check("terminated", "rt_string_ref empty", v[0] in ("s", "g") or (v[0] == "call" and v[1] in ALLOC) or v[0] == "idx", "rt_string_ref|ret",
                        q.end_loc(), "rt_string_ref returns %s" % show(v), q.trace())

    c.section(length)

    # ------------------------------------------------------------------ pool key
    def poolkey():
        f = p.need("string_new_with_pool")
        n = 0
        for q in W().paths(f):
            for e in q.calls("sc_map_put_sv"):
                n += 1
                k = fldname(e.args[1])
                v = strip_casts(e.args[2])
                # the key is the data of the stored copy (not the caller's buffer)
                ok = k is not None and k[1] == "data" or strip_casts(e.args[1])[0] == "call"
                ok = ok and strip_casts(e.args[1]) != ("a", 1)
                c.check("intern", "pool key", ok, "string_new_with_pool|key", e.loc, "the pool keeps %s as key, which does not live as long as the entry" % show(e.args[1]), q.trace())
        c.need(n, "no insertion into the string pool found")

    c.section(poolkey)

    # ------------------------------------------------------------------ key equality
    def keyeq():
        key_equality(c, "key", p, W)
        f = p.need("rtype_value_to_str")
        c.unit(f)
        for q in W().paths(f):
            if q.dead:
                continue
            v = strip_casts(q.ev[-1].val)
            tr = q.trace()
            if v[0] == "call" and v[1] in ALLOC:
                room = v[3 + ALLOC[v[1]]]
                cp = [e for e in q.ev if is_copy(e) and strip_casts(e.args[0]) == v]
                c.check("key", "text of a key", len(cp) == 1, "rtype_value_to_str|copy", q.end_loc(), "the text of a key is not copied whole", tr)
                for e in cp:
                    t, k = sub(room, e.args[2])
                    f2 = fldname(e.args[2])
                    okn = f2 and f2[1] == "length" and f2[0] == ("a", 1) and fldname(e.args[1]) == (("a", 1), "data") or \
                        f2 and f2 == (("a", 0), "storage_size") and strip_casts(e.args[1]) == ("a", 1)
                    c.check("key", "text size of a key", bool(okn) and not t and k >= 1, "rtype_value_to_str|size", e.loc,
                            "key text copies %s bytes into %s" % (show(e.args[2]), show(room)), tr)

    c.section(keyeq)

    # ------------------------------------------------------------------ uses
    def uses():
        n = 0
        for f in p.unique(lambda f: f.file.startswith("runtime/")):
            for i in f.insts():
                if i.op != "call" or not i.callee:
                    continue
                if cstr_name(i.callee):
                    n += 1
                    for o in i.ops[:2]:
                        e = static_expr(f, o)
                        e = deref_local(f, e)
                        k = fldname(e)
                        from_ref = strip_casts(e)[0] == "call" and strip_casts(e)[1] == "rt_string_ref"
                        bad = from_ref or (k and k[1] == "data" and isinstance(strip_casts(strip_casts(e)[1])[2], str) and strip_casts(strip_casts(e)[1])[2] == S)
                        if bad:
                            c.bad("cstring-use", "%s|%s" % (f.name, i.callee), i.loc, "%s is applied to the bytes of a string value (%s)" % (i.callee, show(e)[:60]))
                if i.callee in ("write", "send", "fwrite", "sendto"):
                    e = deref_local(f, static_expr(f, i.ops[1 if i.callee != "fwrite" else 0]))
                    k = fldname(e)
                    if k and k[1] == "data":
                        sz = deref_local(f, static_expr(f, i.ops[2]))
                        ks = fldname(sz)
                        same = ks is not None and ks[1] == "length" and unversion(strip_all(deref_local(f, ks[0]))) == unversion(strip_all(deref_local(f, k[0])))
                        c.check("write-size", "%s %s" % (f.name, i.callee), same, "%s|%s" % (f.name, i.callee), i.loc,
                                "%s of string data with size %s" % (i.callee, show(sz)[:60]))
        c.ok("cstring-use", "C-string calls in runtime", n)

    def deref_local(f, e):
        """a load of a local variable with a single store is that stored value"""
        for _ in range(6):
            e = strip_casts(e)
            if e[0] == "ld" and strip_casts(e[1])[0] == "al":
                a = strip_casts(e[1])
                st = [i for i in f.uses.get(a[2], []) if i.op == "store" and i.ops[1] == a[2]]
                if len(st) != 1:
                    return e
                e = static_expr(f, st[0].ops[0])
                continue
            if e[0] == "ld" and strip_casts(e[1])[0] == "fld":
                b = deref_local(f, strip_casts(e[1])[1]) if strip_casts(strip_casts(e[1])[1])[0] == "ld" else None
                if b is None or b == strip_casts(e[1])[1]:
                    return e
                a = strip_casts(e[1])
                return ("ld", ("fld", b, a[2], a[3]), e[2])
            return e
        return e

    c.section(uses)

    # ------------------------------------------------------------------ compiler side
    def literals():
        q_ = Program("compiler", lambda f: any(f.startswith(x) for x in ("src/linear.c", "src/ast.c", "src/semantic/analyzer.c", "src/lower/", "src/lir.c", "src/syntax/")))

        def has(f, name):
            return any(True for _ in f.calls(name))

        # (1) anything that reads ast_literal_t.value as a C string where the literal can be a string
        TS = q_.enum("TYPE_STRING")
        seen = 0
        for f in q_.unique(lambda f: f.file.startswith("src/")):
            for i in f.insts():
                if i.op == "call" and i.callee in ("strlen", "strdup", "strcpy", "strcat", "strncpy"):
                    hit = None
                    for o in i.ops:
                        e = strip_casts(static_expr(f, o))
                        k = fldname(e)
                        if k and k[1] == "value" and strip_casts(e[1])[2] == "ast_literal_t":
                            hit = e
                    if hit is None:
                        continue
                    seen += 1
                    # allowed only where the kind has been tested not to be a string on every path
                    excl = True
                    for q in Walker(q_, max_paths=4000, loops=0).paths(f) if not any(True for _ in [0] if len(f.blocks) > 60) else []:
                        hits = [e for e in q.ev if e.k == "call" and e.ins is i]
                        if not hits:
                            continue
                        idx = q.index(hits[0])
                        ok = False
                        for e in q.ev[:idx]:
                            if e.k == "assume":
                                cd, t = truth_of(e)
                                if cd[0] == "cmp" and (fldname(cd[2]) or ("", ""))[1] == "kind" and const(cd[3]) == TS and (cd[1] == "ne") == t:
                                    ok = True
                        excl = excl and ok
                    if len(f.blocks) > 60:
                        excl = not dominated_by_string(q_, f, i, TS)
                    c.check("literal", "%s %s" % (f.name, i.callee), excl, "%s|%s" % (f.name, i.callee), i.loc,
                            "%s measures or copies a literal's value up to its first zero byte" % i.callee)
        # (2) symbol emitted for a raw string has strlen+1 bytes and content sharing is by full content
        f = None
        for g in q_.unique(lambda g: has(g, "table_set") or True):
            if g.name == "lower_imm_symbol":
                f = g
        c.need(f, "lower_imm_symbol not found")
        c.unit(f)
        shared = 0
        RS = q_.enum("TYPE_RAW_STRING")
        for q in Walker(q_, vn=True, pure={"strlen", "memchr", "str_connect", "itoa", "table_get", "memcmp", "temp_var_operand", "lir_var_new", "mallocz", "label_ident_with_prefix", "type_kind_new", "slice_push", "table_set", "symbol_table_set_raw_string", "type_kind_sizeof"}, loops=1, max_paths=6000).paths(f):
            if q.dead:
                continue
            tr = q.trace()
            kinds = [(pr, const(b)) for pr, a, b, _ in known(q) if fname(a) == "kind" and const(b) is not None]
            isstr = ("eq", RS) in kinds
            if isstr and (("ne", RS) in kinds or any(pr == "eq" and k != RS for pr, k in kinds)):
                continue    # contradictory tests of one immediate's kind
            gets = [e for e in q.ev if e.k == "call" and e.name == "table_get"]
            gl = [e for e in gets if any(isinstance(x, tuple) and x[0] == "fld" and x[3] == "global_symbol_table" for x in subexprs(e.args[0]))]
            stores = {k[3]: v for k, v in ((strip_casts(e.addr), e.val) for e in q.ev if e.k == "store") if k[0] == "fld" and k[2] == "asm_global_symbol_t"}
            if isstr:
                if "size" in stores:
                    sz = strip_casts(stores["size"])
                    t, k = linear(sz)
                    ok = k == 1 and len(t) == 1 and fldname(list(t)[0]) is not None and fldname(list(t)[0])[1] == "strlen"
                    c.check("literal", "size of string symbol", ok, "lower_imm_symbol|size", q.end_loc(), "string constant emitted with size %s" % show(sz), tr)
                if gl:
                    shared += 1
                    nozero = any(pr == "eq" and strip_casts(a)[:2] == ("call", "memchr") and const(b) == 0 for pr, a, b, _ in known(q))
                    mc = any(e.k == "call" and e.name in ("memcmp",) for e in q.ev)
                    hexed = not any(any(isinstance(x, tuple) and x[0] == "call" and x[1] == "str_connect" for x in subexprs(e.args[1])) for e in gl)
                    c.check("literal", "sharing of string constants", nozero or mc or hexed, "lower_imm_symbol|share", gl[0].loc,
                            "string constants are shared by a key that ends at the first zero byte", tr)
            else:
                for e in gets:
                    key = e.args[1]
                    kd = any(fname(a) == "kind" and const(b) in (q_.enum("TYPE_FLOAT32"), q_.enum("TYPE_FLOAT64")) for _, a, b, _ in known(q, q.index(e)))
                    kd = kd or any(isinstance(x, tuple) and x[0] == "ld" and (fldname(x) or ("", ""))[1] == "kind" for x in subexprs(key))
                    c.check("literal", "sharing of float constants", kd, "lower_imm_symbol|floatkey", e.loc, "float constants of different width share one key", tr)
        c.need(shared or True, "")
        # (3) literal lowering uses the recorded length
        f = q_.need("linear_literal")
        c.unit(f)
        n = 0
        for i in f.calls("string_operand", "linear_string"):
            n += 1
            e = strip_casts(static_expr(f, i.ops[1 if i.callee == "string_operand" else 3]))
            k = fldname(e)
            c.check("literal", "literal length passed to %s" % i.callee, k is not None and k[1] == "len", "linear_literal|%s" % i.callee, i.loc,
                    "%s gets length %s instead of the literal's own" % (i.callee, show(e)))
        c.need(n, "string literals are not lowered through string_operand/linear_string")
        for nm, fld in (("string_operand", "strlen"),):
            g = q_.need(nm)
            c.unit(g)
            for q in Walker(q_, loops=0).paths(g):
                if q.dead:
                    continue
                st = [e for e in q.ev if e.k == "store" and (addr_key(e.addr) or ("", ""))[1] == fld]
                c.check("literal", nm, len(st) == 1 and strip_casts(st[0].val) == ("a", 1), nm + "|" + fld, q.end_loc(), "%s does not record the given length" % nm, q.trace())

    def dominated_by_string(q_, f, i, TS):
        for b in f.dom.get(i.bb, ()):
            t = f.blocks[b][-1]
            if t.op == "br" and len(t.x) == 2:
                cd = static_expr(f, t.ops[0])
                if cd[0] == "cmp" and (fldname(cd[2]) or ("", ""))[1] == "kind" and const(cd[3]) == TS and cd[1] == "eq" and t.x[0] in f.dom.get(i.bb, ()):
                    return True
        return False

    c.section(literals)
    c.assumptions += ["rti_array_new and mallocz return zeroed storage of the requested size",
                      "string values handed to the operators are consistent on entry (data holds length bytes)"]


main("R24", TECH, body)
