"""R11: maps and sets are finite maps over every history (open addressing with compact entry arrays)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from util import *
from strings import key_equality

TECH = ("contract analysis over LLVM IR: every path of the slot search is matched against the open-addressing contract, and every path of "
        "insert, delete, lookup, grow, create and iterate is matched against the representation invariant that contract preserves")

SET, DEL = -(1 << 63), 1 << 62
PURE = {"rt_find_rtype", "rti_array_new", "rti_gc_malloc", "rt_rtype_stack_size", "key_equal", "key_hash", "find_hash_slot",
        "rti_write_barrier_rtype", "rti_write_barrier_ptr", "rtype_value_to_str", "hash_string", "itoa", "dtoa", "tlsprintf", "sprintf", "snprintf", "rti_throw",
        "rti_co_throw", "coroutine_get", "free", "_rt_coroutine_async", "llvm.memset.p0.i64"}
STOP = PURE - {"llvm.memset.p0.i64"}
RAISE = ("rti_throw", "rti_co_throw")


def U(e):
    return unversion(strip_all(e))


def lin(e):
    return linear(U(e))


def body(c):
    c.rule("search", "the slot search probes every slot from hash%capacity on, stops only at the equal live key or at an empty slot, and otherwise yields the first free slot", 20)
    c.rule("hash", "the hash of a key is computed from the whole key only, so equal keys start at the same slot", 1)
    c.rule("key", "two keys are the same key exactly if all their bytes (strings: length and content) agree", 4)
    c.rule("slot", "each operation searches its own table with its own capacity, keys, key type and the key it was given", 8)
    c.rule("lookup", "a lookup answers only from a live slot: absent keys raise / yield false, present keys yield that entry's value / true", 8)
    c.rule("insert", "inserting reuses a live entry or appends at the old length and counts it; slot, key and returned value place belong to that entry", 12)
    c.rule("room", "a slot is searched for insertion only below the load limit, or after growing", 2)
    c.rule("delete", "deleting an absent key changes nothing; deleting a present one tombstones its slot, fills the hole with the last entry and counts down once", 8)
    c.rule("grow", "growing re-inserts every old entry with its value into larger fresh arrays, starting from length zero", 6)
    c.rule("create", "a new or lazily created table has consistent capacity, slot array, entry arrays and types", 10)
    c.rule("iterate", "iteration yields entry cursor+1 while it is below the length and then stops; the element address belongs to that entry", 8)
    c.rule("lowering", "m[k] = v evaluates v before the entry's place is taken; a for loop leaves on the end mark", 3)

    p = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    FILES = ("runtime/nutils/map.c", "runtime/nutils/set.c", "runtime/nutils/hash.h", "runtime/nutils/map.h", "runtime/nutils/set.h")

    def resizer(g):
        """functions that replace the storage of an existing table"""
        if g.file not in FILES or not g.argt or g.argt[0] != "ptr" or g.sret:
            return False
        for i in g.insts():
            if i.op == "store":
                a = static_expr(g, i.ops[1])
                if a[0] == "fld" and a[3] == "capacity" and a[2] in ("n_map_t", "n_set_t") and strip_casts(a[1])[0] in ("ld", "a"):
                    return True
        return False

    res = {g.name: g for g in p.unique(lambda g: g.file in FILES) if resizer(g)}
    growers = {n for n, g in res.items() if any(True for i in g.insts() if i.op == "call" and i.callee == "find_hash_slot") or
               any(i.op == "call" and i.callee in ("rt_map_assign", "_rt_set_add", "rt_set_add") for i in g.insts())}
    c.need(len(growers) >= 2 and len(res) > len(growers), "functions that create or grow a table not recognised")

    def inl(g):
        return g.name not in STOP and g.name not in res and (g.file in FILES or g.file.startswith("runtime/nutils/")) and g.name not in RAISE

    def W(loops=1, pure=PURE, inline=inl, **k):
        return Walker(p, inline=inline, vn=True, pure=pure, blocks=True, sret_local=True, loops=loops, **k)

    # ---------------------------------------------------------------- expression views
    def flag(cmpr):
        """(word, bit, isset) of a test of one flag bit"""
        pr, l, r = cmpr
        l = strip_casts(l)
        if const(r) == 0 and pr in ("eq", "ne"):
            if l[0] == "bin" and l[1] == "and":
                for x, m in ((l[2], l[3]), (l[3], l[2])):
                    k = const(m)
                    if k is not None and k in (SET, DEL, 1 << 63):
                        return strip_casts(x), SET if k == 1 << 63 else k, pr == "ne"
            if l[0] == "bin" and l[1] == "lshr" and const(l[3]) == 63:
                return strip_casts(l[2]), SET, pr == "ne"
            if l[0] == "bin" and l[1] == "and" and const(l[3]) == 1:
                s = strip_casts(l[2])
                if s[0] == "bin" and s[1] == "lshr" and const(s[3]) in (62, 63):
                    return strip_casts(s[2]), SET if const(s[3]) == 63 else DEL, pr == "ne"
        if pr in ("slt", "sge") and const(r) == 0:
            return l, SET, pr == "slt"
        if pr in ("sgt", "sle") and const(r) == -1:
            return l, SET, pr == "sle"
        return None

    def state(q, word, upto=None):
        """E empty, D deleted, L live, or the set of states still possible"""
        poss = {"E", "D", "L"}
        for pr, l, r, _ in known(q, upto):
            f = flag((pr, l, r))
            if f and U(f[0]) == U(word):
                if f[1] == SET:
                    poss &= {"D", "L"} if f[2] else {"E"}
                else:
                    poss &= {"D"} if f[2] else {"E", "L"}
        return poss

    def index_of(e):
        """the word e is the entry index of, if e extracts the low 62 bits"""
        e = strip_casts(e)
        if e[0] == "bin" and e[1] == "lshr" and const(e[3]) == 2:
            x = strip_casts(e[2])
            if x[0] == "bin" and x[1] == "shl" and const(x[3]) == 2:
                return strip_casts(x[2])
        if e[0] == "bin" and e[1] == "and":
            for x, m in ((e[2], e[3]), (e[3], e[2])):
                if const(m) == (1 << 62) - 1:
                    return strip_casts(x)
        return None

    def size_of(e):
        """the type hash a storage size belongs to"""
        e = strip_casts(e)
        if e[0] == "call" and e[1] == "rt_rtype_stack_size":
            return U(e[3])
        f = fldname(e)
        if f and f[1] == "storage_size" and f[0][0] == "call" and f[0][1] == "rt_find_rtype":
            return U(f[0][3])
        return None

    def elem(e):
        """(base, size expr, index expr) of an element address"""
        e = strip_casts(e)
        if e[0] == "idx" and e[3] == 1:
            i = strip_casts(e[2])
            base = e[1]
        elif e[0] == "bin" and e[1] == "add":
            base, i = e[2], strip_casts(e[3])
            if strip_casts(base)[0] == "bin":
                base, i = e[3], strip_casts(e[2])
        else:
            return None
        if i[0] == "bin" and i[1] == "mul":
            for s, x in ((i[2], i[3]), (i[3], i[2])):
                if size_of(s) is not None or (fname(s) == "element_size"):
                    return strip_casts(base), strip_casts(s), x
        if size_of(i) is not None or fname(i) == "element_size":
            return strip_casts(base), i, ("c", 1)
        return None

    def table_of(M, S):
        return {k: ("ld", ("fld", M, S, k), 0) for k in ("hash_table", "capacity", "key_data", "value_data", "key_rtype_hash", "value_rtype_hash", "length")}

    def is_f(e, M, f):
        return fldname(e) == (M, f)

    # ---------------------------------------------------------------- the search
    def search():
        f = p.need("find_hash_slot")
        c.unit(f)
        T, CAP, KD, KH, KEY = (("a", i) for i in range(5))
        n = 0
        for q in Walker(p, inline=lambda g: inl(g), vn=True, pure=PURE, loops=3, max_paths=20000).paths(f):
            if q.dead:
                # giving up is only right when no slot is free
                dels = [fl for fl in (flag((pr, l, r)) for pr, l, r, _ in known(q)) if fl and fl[1] == DEL and fl[2]]
                if dels and not infeasible_sentinel(q, None):
                    c.bad("search", "giveup", q.end_loc(), "the search gives up although it has passed a free slot", q.trace())
                continue
            n += 1
            tr = q.trace()
            hs = [e for e in q.ev if e.k == "call" and e.name == "key_hash"]
            if not c.check("search", "hash of the given key", len(hs) == 1 and U(hs[0].args[1]) == KEY and strip_casts(hs[0].args[0])[0] == "call" and
                           strip_casts(hs[0].args[0])[1] == "rt_find_rtype" and U(strip_casts(hs[0].args[0])[3]) == KH,
                           "hash", q.end_loc(), "the search does not hash the given key with its type", tr):
                continue
            H = hs[0].res
            probe = ("bin", "urem", U(H), CAP)
            seen = []      # (slot index, state, equal)
            first = None
            cur, ok = probe, True
            # the words read, in order of their first test
            words = []
            for pr, l, r, e in known(q):
                fl = flag((pr, l, r))
                if fl:
                    w = U(fl[0])
                    if w not in words:
                        words.append(w)
            for w in words:
                if not (w[0] == "ld" and w[1][0] == "idx" and U(w[1][1]) == T and w[1][3] == 8):
                    c.bad("search", "probe|table", q.end_loc(), "the search inspects %s, not a slot of its table" % show(w)[:80], tr)
                    ok = False
                    break
                i = U(w[1][2])
                if not same_probe(i, cur, CAP):
                    c.bad("search", "probe|order", q.end_loc(), "probe %d looks at slot %s, expected %s" % (len(seen) + 1, show(i)[:60], show(cur)[:60]), tr)
                    ok = False
                    break
                st = state(q, w)
                eq = None
                for e in q.calls("key_equal"):
                    a = [elem(x) for x in e.args[1:3]]
                    el = a[0] or a[1]
                    if el is None:
                        c.bad("search", "equal|arg", e.loc, "keys are compared with %s, which is no entry of the table" % show(e.args[1])[:60], tr)
                        ok = False
                        continue
                    ix = index_of(el[2])
                    if ix is None or U(ix) != w:
                        continue
                    other = e.args[2] if a[0] else e.args[1]
                    good = U(el[0]) == KD and size_of(el[1]) == KH and U(other) == KEY
                    c.check("search", "compared key", good, "equal|entry", e.loc, "the search compares %s with %s" % (show(e.args[1])[:60], show(other)[:40]), tr)
                    eq = truth(q, e.res)
                seen.append((i, st, eq))
                nx = ("bin", "urem", ("bin", "add", i, ("c", 1)), CAP)
                cur = nx
            if not ok:
                continue
            ret = U(q.ev[-1].val)
            freed = next((i for i, st, _ in seen if st == {"D"}), None)
            last = seen[-1] if seen else None
            # every probe but the last must be passed over legitimately
            for i, st, eq in seen[:-1]:
                c.check("search", "passed over", st == {"D"} or (st == {"L"} and eq is False), "pass|%s%s" % ("".join(sorted(st)), eq), q.end_loc(),
                        "the search goes on past a slot that is %s" % describe(st, eq), tr)
            if last is None:
                c.bad("search", "noprobe", q.end_loc(), "the search returns %s without looking at a slot" % show(ret)[:60], tr)
                continue
            i, st, eq = last
            sentinel = [const(r) for pr, l, r, _ in known(q) if const(r) is not None and const(r) < 0 and pr == "eq"]
            if st == {"L"} and eq is True:
                c.check("search", "found", same_probe(ret, i, CAP), "found", q.end_loc(), "the equal key is in slot %s but the search returns %s" % (show(i)[:50], show(ret)[:50]), tr)
            elif st == {"E"} and infeasible_sentinel(q, freed):
                continue
            elif st == {"E"}:
                want = freed if freed is not None else i
                c.check("search", "free slot", same_probe(ret, want, CAP), "free", q.end_loc(), "the key is absent; expected the first free slot %s, got %s" % (
                    show(want)[:50], show(ret)[:50]), tr)
            elif st == {"D"} or (st == {"L"} and eq is False):
                # only after a full round: attempts >= capacity
                k = len(seen)
                full = any((pr in ("ule", "eq") and U(l) == CAP and const(r) == k) or (pr in ("uge", "eq") and U(r) == CAP and const(l) == k) or
                           (pr == "ult" and U(l) == CAP and const(r) == k + 1) or (pr == "eq" and same_probe(U(l), cur, CAP) and same_probe(U(r), probe, CAP)) for pr, l, r, _ in known(q))
                if infeasible_sentinel(q, freed):
                    continue
                c.check("search", "full round", full and freed is not None and same_probe(ret, freed, CAP), "round", q.end_loc(),
                        "the search stops at a slot that is %s and returns %s before a full round" % (describe(st, eq), show(ret)[:50]), tr)
            else:
                c.bad("search", "end|%s%s" % ("".join(sorted(st)), eq), q.end_loc(), "the search returns %s for a slot that is %s" % (show(ret)[:50], describe(st, eq)), tr)
        c.need(n >= 10, "the slot search has too few paths")

    def describe(st, eq):
        s = {"E": "empty", "D": "deleted", "L": "live"}
        return "/".join(s[x] for x in sorted(st)) + (" with an equal key" if eq else " with another key" if eq is False else "")

    def same_probe(a, b, cap):
        a, b = U(a), U(b)
        if a == b:
            return True
        # (x+1)%c as select(x+1==c,0,x+1) is not normalised; linear forms are
        return linear(a) == linear(b)

    def truth(q, r):
        for pr, l, rr, _ in known(q):
            if U(l) == U(r) and const(rr) == 0:
                return pr == "ne"
            if U(l) == U(r) and const(rr) == 1 and pr in ("eq", "ne"):
                return pr == "eq"
        return None

    def infeasible_sentinel(q, freed):
        """a path that claims a slot number equals the 'none yet' mark: slot numbers are below the capacity"""
        for pr, l, r, _ in known(q):
            if pr == "eq" and const(r) is not None and const(r) < 0 and strip_casts(l)[0] == "bin" and strip_casts(l)[1] == "urem":
                return True
        return False

    c.section(search)

    def hashing():
        f = p.need("key_hash")
        c.unit(f)
        for q in Walker(p, inline=lambda g: False, vn=True, pure=PURE, loops=1).paths(f):
            if q.dead:
                continue
            r = strip_casts(q.ev[-1].val)
            t = strip_casts(r[3]) if r[0] == "call" and r[1] == "hash_string" else None
            c.check("hash", "key_hash", t is not None and t[0] == "call" and t[1] == "rtype_value_to_str" and [U(x) for x in t[3:5]] == [("a", 0), ("a", 1)],
                    "key_hash", q.end_loc(), "the hash of a key is %s, not the hash of its text" % show(r)[:80], q.trace())
        f = p.need("rtype_value_to_str")
        c.unit(f)
        KS = p.enum("TYPE_STRING")
        R, V = ("a", 0), ("a", 1)
        n = 0
        for q in Walker(p, inline=lambda g: False, vn=True, pure=PURE | {"mallocz", "itoa", "dtoa"}, loops=1).paths(f):
            if q.dead:
                continue
            n += 1
            v = strip_casts(q.ev[-1].val)
            tr = q.trace()
            isstr = None
            for pr, l, r, _ in known(q):
                if fldname(l) == (R, "kind") and const(r) == KS and pr in ("eq", "ne"):
                    isstr = pr == "eq"
            cp = [e for e in q.ev if is_copy(e) and U(e.args[0]) == U(v)]
            src = [(U(e.args[1]), U(e.args[2])) for e in cp]
            if cp:
                ok = len(cp) == 1 and (
                    (isstr is True and fldname(cp[0].args[1]) == (V, "data") and fldname(cp[0].args[2]) == (V, "length")) or
                    (isstr is not True and U(cp[0].args[1]) == V and fldname(cp[0].args[2]) == (R, "storage_size")))
                c.check("hash", "text of a key", ok, "text|copy", q.end_loc(), "the text hashed for a key takes %s bytes from %s" % (
                    show(cp[0].args[2])[:40], show(cp[0].args[1])[:40]), tr)
            else:
                # a printed number: the whole value must be printed, with a width not below the storage
                tmp = [U(e.args[0]) for e in q.ev if is_copy(e) and U(e.args[1]) == V and fldname(e.args[2]) == (R, "storage_size")]
                c.check("hash", "text of a key", v[0] == "call" and any(x[0] == "ld" and U(x[1]) in [V] + tmp for x in subexprs(v)),
                        "text|value", q.end_loc(), "the text hashed for a key is %s, which does not come from the key" % show(v)[:80], tr)
        c.need(n, "rtype_value_to_str has no returning path")
        key_equality(c, "key", p, lambda: Walker(p, inline=lambda g: g.name not in STOP and g.file in FILES, vn=True, pure=PURE | {"memcmp", "bcmp"}, loops=1))

    c.section(hashing)

    # ---------------------------------------------------------------- operations
    def ops(name, M, S, KEY, kind):
        f = p.need(name)
        c.unit(f)
        n = 0
        ismap = S == "n_map_t"
        for q in W().paths(f):
            if q.dead:
                continue
            n += 1
            tr = q.trace()
            end = q.end_loc()
            fh = [e for e in q.ev if e.k == "call" and e.name == "find_hash_slot"]
            rs = [e for e in q.ev if e.k == "call" and e.name in RAISE]
            # writes to the table's memory
            def mine(a):
                return any(x[0] == "fld" and x[1] == M for x in subexprs(U(a)))
            wr = [e for e in q.ev if (e.k == "store" and mine(e.addr)) or (e.k == "call" and (is_copy(e) or e.name.startswith("llvm.memset") or e.name == "memset" or e.name in (
                "rti_write_barrier_rtype", "rti_write_barrier_ptr")) and mine(e.args[0])) or (e.k == "call" and e.name in res)]
            ret = q.ev[-1].val if q.ev[-1].k == "ret" else None
            empty = any(pr in ("eq", "ule") and is_f(l, M, "capacity") and const(r) == 0 for pr, l, r, _ in known(q))
            if not fh:
                ok = empty
                if kind == "insert":
                    ok = False
                c.check("slot", "%s without search" % name, ok, "%s|nosearch" % name, end, "%s finishes without searching the key" % name, tr)
                if ok:
                    absent(name, kind, q, rs, wr, ret, end, tr, "an empty table")
                continue
            e0 = fh[0]
            nonempty = any((pr in ("ne", "ugt") and const(r) == 0 or pr == "uge" and const(r) == 1) and is_f(l, M, "capacity") for pr, l, r, _ in known(q, q.index(e0)))
            grown = [e for e in q.ev[:q.index(e0)] if e.k == "call" and e.name in res]
            late = [e for e in q.ev[q.index(e0):] if e.k == "call" and e.name in res]
            c.check("slot", "%s storage stays" % name, not late, "%s|late" % name, end, "%s replaces the storage after the slot was searched" % name, tr)
            a = e0.args
            okargs = is_f(a[0], M, "hash_table") and is_f(a[1], M, "capacity") and is_f(a[2], M, "key_data") and is_f(a[3], M, "key_rtype_hash") and U(a[4]) == KEY
            c.check("slot", "%s search arguments" % name, okargs, "%s|args" % name, e0.loc, "%s searches with (%s)" % (name, ", ".join(show(x)[:30] for x in a)), tr)
            c.check("slot", "%s capacity" % name, nonempty or grown or noninit(q, e0, M), "%s|zero" % name, e0.loc, "%s searches a table that may have no slots" % name, tr)
            if not okargs:
                continue
            slot = ("idx", U(a[0]), U(e0.res), 8)
            word = None
            for x in q.ev:
                for s in ([x.cond] if x.k == "assume" else [x.val] if x.k in ("store", "ret") and x.val else x.args if x.k == "call" else []):
                    for y in subexprs(s):
                        if y[0] == "ld" and U(y)[1] == slot:
                            word = U(y)
            if kind == "insert":
                room(name, q, e0, M, grown, tr)
            if word is None:
                c.bad("slot", "%s|word" % name, end, "%s does not look at the slot the search found" % name, tr)
                continue
            st = state(q, word)
            if kind == "insert":
                insert(name, M, S, KEY, q, e0, slot, word, st, wr, ret, end, tr, ismap)
                continue
            if st <= {"E", "D"}:
                absent(name, kind, q, rs, wr, ret, end, tr, "/".join(sorted(st)))
            elif st == {"L"}:
                if kind == "delete":
                    delete(name, M, S, q, e0, slot, word, wr, end, tr, ismap)
                else:
                    c.check("lookup", "%s no error" % name, not rs, "%s|raise" % name, end, "%s raises although the key is present" % name, tr)
                    c.check("lookup", "%s no change" % name, not wr, "%s|write" % name, end, "%s changes the table" % name, tr)
                    if kind == "contains":
                        c.check("lookup", "%s true" % name, const(ret) not in (0, None), "%s|true" % name, end, "%s answers %s for a present key" % (name, show(ret)), tr)
                    else:
                        el = elem(ret)
                        ok = el and is_f(el[0], M, "value_data") and size_of(el[1]) == ("ld", ("fld", M, S, "value_rtype_hash"), 0) and \
                            index_of(el[2]) is not None and U(index_of(el[2])) == word
                        if el and not ok and size_of(el[1]) is not None:
                            sz = strip_casts(size_of(el[1]))
                            ok = is_f(el[0], M, "value_data") and fldname(sz) == (M, "value_rtype_hash") and index_of(el[2]) is not None and U(index_of(el[2])) == word
                        c.check("lookup", "%s value place" % name, ok, "%s|value" % name, end, "%s returns %s for a present key" % (name, show(ret)[:80]), tr)
            else:
                c.bad("lookup" if kind != "delete" else "delete", "%s|undecided" % name, end, "%s acts without knowing whether the slot is live (%s possible)" % (name, describe(st, None)), tr)
        c.need(n, "%s has no returning path" % name)

    def noninit(q, e0, M):
        # an assert on the capacity or a non-null table counts too
        return any(is_f(l, M, "hash_table") and pr == "ne" and const(r) == 0 for pr, l, r, _ in known(q, q.index(e0)))

    def absent(name, kind, q, rs, wr, ret, end, tr, what):
        rule = "delete" if kind == "delete" else "lookup"
        c.check(rule, "%s absent: no change" % name, not wr, "%s|absentwrite" % name, end, "%s changes the table although the key is absent (%s)" % (name, what), tr)
        if kind == "access":
            c.check(rule, "%s absent: error" % name, len(rs) == 1, "%s|absentraise" % name, end, "%s does not raise for an absent key (%s)" % (name, what), tr)
            c.check(rule, "%s absent: no value" % name, const(ret) == 0, "%s|absentvalue" % name, end, "%s returns %s for an absent key" % (name, show(ret)[:50]), tr)
        elif kind == "contains":
            c.check(rule, "%s absent: false" % name, const(ret) == 0, "%s|absenttrue" % name, end, "%s answers %s for an absent key (%s)" % (name, show(ret), what), tr)

    def room(name, q, e0, M, grown, tr):
        """below the load limit: a float comparison of length+1 with capacity*k, k<1 (or an integer equivalent)"""
        if any(e.name in growers for e in grown):
            c.ok("room", "%s after growing" % name)
            return
        ok = False
        for pr, l, r, e in known(q, q.index(e0)):
            sl, sr = U(l), U(r)
            ml = [x for x in subexprs(sl) if fldname(x) == (M, "length")]
            mr = [x for x in subexprs(sr) if fldname(x) == (M, "capacity")]
            swap = False
            if not (ml and mr):
                ml = [x for x in subexprs(sr) if fldname(x) == (M, "length")]
                mr = [x for x in subexprs(sl) if fldname(x) == (M, "capacity")]
                swap = True
            if not (ml and mr):
                continue
            x, y = (sr, sl) if swap else (sl, sr)
            pr2 = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(pr, pr) if swap else pr
            if swap and pr.startswith("f"):
                pr2 = pr[:2] + {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(pr[2:], pr[2:])
            below = pr2[-2:] in ("le", "lt")
            if below and factor(y) is not None and factor(y) < 1 and (plus(x) >= 1 or pr2[-2:] == "lt"):
                ok = True
        c.check("room", "%s below the limit" % name, ok, "%s|room" % name, e0.loc, "%s searches a slot without having made sure one is free" % name, tr)

    def factor(e):
        """k if e = capacity * k"""
        e = strip_casts(e)
        if isinstance(e, tuple) and e[0] in ("uitofp", "sitofp", "cast"):
            return factor(e[2] if e[0] != "cast" else e[2])
        if e[0] == "ld":
            return 1.0
        if e[0] == "bin":
            a, b = e[2], e[3]
            if e[1] in ("fmul", "mul"):
                for x, y in ((a, b), (b, a)):
                    k = num(y)
                    if k is not None and factor(x) is not None:
                        return factor(x) * k
            if e[1] in ("udiv", "fdiv", "sdiv") and num(b):
                fa = factor(a)
                return fa / num(b) if fa is not None else None
            if e[1] == "sub":
                fa, fb = factor(a), factor(b)
                if fa is not None and fb is not None:
                    return fa - fb
            if e[1] == "lshr" and num(b) is not None:
                fa = factor(a)
                return fa / (1 << int(num(b))) if fa is not None else None
        return None

    def num(e):
        e = strip_casts(e)
        if e[0] == "c":
            return float(e[1])
        if e[0] == "cf":
            try:
                return float(e[1])
            except ValueError:
                return None
        return None

    def plus(e):
        e = strip_casts(e)
        if e[0] in ("uitofp", "sitofp"):
            return plus(e[2])
        if e[0] == "bin" and e[1] in ("fadd", "add"):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if num(y) is not None:
                    return num(y) + plus(x)
        return 0

    def slot_stores(wr, slot):
        return [e for e in wr if e.k == "store" and U(e.addr) == slot]

    def other_slot_stores(wr, M, slot):
        out = []
        for e in wr:
            if e.k == "store":
                a = U(e.addr)
                if a[0] == "idx" and is_f(a[1], M, "hash_table") and a != slot:
                    out.append(e)
        return out

    def set_word(e):
        """data index stored by a live slot word: index | SET"""
        e = strip_casts(e)
        if e[0] == "bin" and e[1] in ("or", "add", "xor"):
            for x, m in ((e[2], e[3]), (e[3], e[2])):
                if const(m) in (SET, 1 << 63):
                    return x
        if e[0] == "c" and e[1] in (SET, 1 << 63):
            return ("c", 0)
        return None

    def insert(name, M, S, KEY, q, e0, slot, word, st, wr, ret, end, tr, ismap):
        lenst = [e for e in wr if e.k == "store" and U(e.addr) == ("fld", M, S, "length")]
        if st <= {"E", "D"}:
            okc = len(lenst) == 1 and count_step(lenst[0].val, M) == 1
            c.check("insert", "%s counts a new entry" % name, okc, "%s|count" % name, end, "%s sets the length to %s for a new key" % (
                name, ", ".join(show(e.val) for e in lenst) or "nothing"), tr)
            want = lambda x: count_step(x, M) == 0
            new = True
        elif st == {"L"}:
            c.check("insert", "%s keeps the count" % name, not lenst, "%s|recount" % name, end, "%s counts an already present key again" % name, tr)
            want = lambda x: index_of(x) is not None and U(index_of(x)) == word
            new = False
        else:
            c.bad("insert", "%s|undecided" % name, end, "%s inserts without knowing whether the slot is live" % name, tr)
            return
        ss = slot_stores(wr, slot)
        oth = other_slot_stores(wr, M, slot)
        c.check("insert", "%s only its slot" % name, not oth, "%s|otherslot" % name, end, "%s writes another slot than the one found" % name, tr)
        if ss or new:
            good = len(ss) >= 1 and all(set_word(e.val) is not None and want(set_word(e.val)) or (not new and U(e.val) == word) for e in ss)
            c.check("insert", "%s slot word" % name, good, "%s|slot" % name, end, "%s records %s in the slot of a %s key" % (
                name, ", ".join(show(e.val)[:60] for e in ss) or "nothing", "new" if new else "present"), tr)
        kw = [e for e in wr if e.k == "call" and elem(e.args[0]) and is_f(elem(e.args[0])[0], M, "key_data")]
        good = [e for e in kw if want(elem(e.args[0])[2]) and okfld(size_of(elem(e.args[0])[1]), M, "key_rtype_hash") and U(e.args[1]) == KEY and okcopy(e, M, "key_rtype_hash")]
        if new:
            c.check("insert", "%s stores the key" % name, len(good) >= 1, "%s|key" % name, end, "%s does not store the new key at its entry" % name, tr)
        c.check("insert", "%s stores no other key" % name, len(good) == len(kw), "%s|keyplace" % name, end, "%s writes a key to %s" % (
            name, ", ".join(show(e.args[0])[:70] for e in kw if e not in good)), tr)
        if ismap:
            el = elem(ret)
            ok = el and is_f(el[0], M, "value_data") and okfld(size_of(el[1]), M, "value_rtype_hash") and want(el[2])
            c.check("insert", "%s value place" % name, ok, "%s|value" % name, end, "%s returns %s as the place of a %s key" % (name, show(ret)[:80], "new" if new else "present"), tr)
        else:
            c.check("insert", "%s reports" % name, (const(ret) != 0) == new and const(ret) is not None, "%s|result" % name, end,
                    "%s reports %s for a %s key" % (name, show(ret), "new" if new else "present"), tr)

    def okfld(e, M, f):
        return e is not None and fldname(e) == (M, f)

    def okcopy(e, M, f):
        if e.name == "rti_write_barrier_rtype":
            t = strip_casts(e.args[2])
            return t[0] == "call" and t[1] == "rt_find_rtype" and fldname(t[3]) == (M, f)
        if is_copy(e):
            return okfld(size_of(e.args[2]), M, f)
        return False

    def count_step(e, M):
        """k if e = old length + k"""
        t, k = lin(e)
        if len(t) == 1 and list(t.values()) == [1] and fldname(list(t)[0]) == (M, "length"):
            return k
        return None

    def delete(name, M, S, q, e0, slot, word, wr, end, tr, ismap):
        lenst = [e for e in wr if e.k == "store" and U(e.addr) == ("fld", M, S, "length")]
        c.check("delete", "%s counts down" % name, len(lenst) == 1 and count_step(lenst[0].val, M) == -1, "%s|count" % name, end,
                "%s sets the length to %s" % (name, ", ".join(show(e.val) for e in lenst) or "nothing"), tr)
        ss = slot_stores(wr, slot)
        fin = ss[-1].val if ss else None
        k = const(fin) if fin is not None else None
        tomb = False
        if k is not None:
            tomb = bool(k & DEL) and bool(k & (1 << 63))
        elif fin is not None:
            tomb = orbits(fin, word)
        c.check("delete", "%s tombstone" % name, tomb, "%s|tomb" % name, end, "%s leaves %s in the slot of the deleted key" % (name, show(fin)[:60] if fin else "the old word"), tr)
        # is the deleted entry known to be the last one on this path?
        lastidx = lambda x: count_step(x, M) == -1
        mine = lambda x: index_of(x) is not None and U(index_of(x)) == word
        last = None
        for pr, l, r, _ in known(q):
            if pr in ("eq", "ne") and ((mine(l) and lastidx(r)) or (mine(r) and lastidx(l))):
                last = pr == "eq"
            if pr in ("ult", "slt") and mine(l) and lastidx(r):
                last = False
            if pr in ("uge", "sge") and mine(l) and lastidx(r):
                last = True
        moves = {"key_data": [], "value_data": []}
        for e in wr:
            if e.k == "call" and (is_copy(e) or e.name == "rti_write_barrier_rtype"):
                if U(e.args[0]) == U(e.args[1]):
                    continue  # reports the references of an entry, changes nothing
                d = elem(e.args[0])
                s_ = elem(e.args[1])
                which = fname(d[0]) if d else None
                if which in moves:
                    hf = "key_rtype_hash" if which == "key_data" else "value_rtype_hash"
                    good = mine(d[2]) and s_ and fname(s_[0]) == which and lastidx(s_[2]) and okfld(size_of(d[1]), M, hf) and okfld(size_of(s_[1]), M, hf) and okcopy(e, M, hf)
                    moves[which].append((e, good))
                    c.check("delete", "%s moves the last entry" % name, good, "%s|move%s" % (name, which), e.loc, "%s copies %s to %s" % (
                        name, show(e.args[1])[:60], show(e.args[0])[:60]), tr)
        oth = other_slot_stores(wr, M, slot)
        if last is True:
            c.check("delete", "%s last entry" % name, not oth, "%s|otherslot" % name, end, "%s rewrites another slot though the last entry is deleted" % name, tr)
            return
        # not known to be the last entry: the hole must be filled
        needk = ["key_data"] + (["value_data"] if ismap else [])
        for w in needk:
            c.check("delete", "%s fills the hole (%s)" % (name, w), any(g for _, g in moves[w]), "%s|hole%s" % (name, w), end,
                    "%s leaves a hole in %s" % (name, w), tr)
        fh2 = [e for e in q.ev if e.k == "call" and e.name == "find_hash_slot" and e is not e0]
        good = False
        for e in fh2:
            a = e.args
            el = elem(a[4])
            if not (is_f(a[0], M, "hash_table") and is_f(a[1], M, "capacity") and is_f(a[2], M, "key_data") and is_f(a[3], M, "key_rtype_hash")):
                continue
            if not (el and is_f(el[0], M, "key_data") and lastidx(el[2]) and okfld(size_of(el[1]), M, "key_rtype_hash")):
                continue
            # the search must see the old arrangement
            before = q.ev[:q.index(e)]
            moved = any(x is m for m, _ in moves["key_data"] for x in before)
            lowered = any(x is m for m in lenst for x in before)
            wiped = any(x.k == "call" and x.name.startswith(("llvm.memset", "memset")) and elem(x.args[0]) and is_f(elem(x.args[0])[0], M, "key_data") for x in before)
            if wiped or (moved and not any(x in ss for x in before)):
                continue
            for o in oth:
                a2 = U(o.addr)
                if U(a2[2]) == U(e.res) and set_word(o.val) is not None and mine(set_word(o.val)):
                    good = True
        c.check("delete", "%s re-points the moved entry" % name, good and len(oth) == 1, "%s|repoint" % name, end,
                "%s does not re-point the slot of the entry moved into the hole" % name, tr)
        # wiping must not hit live entries
        for e in wr:
            if e.k == "call" and e.name.startswith(("llvm.memset", "memset")):
                d = elem(e.args[0])
                which = fname(d[0]) if d else None
                hf = {"key_data": "key_rtype_hash", "value_data": "value_rtype_hash"}.get(which)
                okw = hf and lastidx(d[2]) and okfld(size_of(d[1]), M, hf) and okfld(size_of(e.args[2]), M, hf)
                late = all(any(x is m for x in q.ev[:q.index(e)]) for m, _ in moves.get(which, []))
                c.check("delete", "%s wipes only the last place" % name, okw and late, "%s|wipe" % name, e.loc, "%s clears %s bytes at %s" % (
                    name, show(e.args[2])[:40], show(e.args[0])[:60]), tr)

    def orbits(e, word):
        """e = word | ... | DEL (word is live, so SET stays)"""
        e = strip_casts(e)
        bits, has = 0, False
        st = [e]
        while st:
            x = strip_casts(st.pop())
            if x[0] == "bin" and x[1] == "or":
                st += [x[2], x[3]]
            elif x[0] == "c":
                bits |= x[1] & ((1 << 64) - 1)
            elif U(x) == word:
                has = True
                bits |= 1 << 63
            else:
                pass
        return bool(bits & DEL) and bool(bits & (1 << 63))

    A0, A1 = ("a", 0), ("a", 1)
    c.section(ops, "rt_map_access", A0, "n_map_t", A1, "access")
    c.section(ops, "rt_map_contains", A0, "n_map_t", A1, "contains")
    c.section(ops, "rt_map_assign", A0, "n_map_t", A1, "insert")
    c.section(ops, "rt_map_delete", A0, "n_map_t", A1, "delete")
    c.section(ops, "rt_set_contains", A0, "n_set_t", A1, "contains")
    c.section(ops, "rt_set_add", A0, "n_set_t", A1, "insert")
    c.section(ops, "rt_set_delete", A0, "n_set_t", A1, "delete")

    def length():
        f = p.need("rt_map_length")
        c.unit(f)
        for q in W().paths(f):
            if not q.dead:
                c.check("lookup", "rt_map_length", is_f(q.ev[-1].val, A0, "length"), "rt_map_length", q.end_loc(), "the length of a map is answered as %s" % show(q.ev[-1].val), q.trace())

    c.section(length)

    # ---------------------------------------------------------------- storage
    def stored(q, M, S, f):
        """last value stored to a field, through a plain store or the pointer barrier"""
        v = None
        for e in q.ev:
            if e.k == "store" and U(e.addr) == ("fld", M, S, f):
                v = e.val
            if e.k == "call" and e.name == "rti_write_barrier_ptr" and U(e.args[0]) == ("fld", M, S, f):
                v = e.args[1]
        return v if v is not None else q.value_at(("fld", M, S, f))

    def storage(name, M, S, q, tr, capval, kh, vh, rule):
        end = q.end_loc()
        capl = lin(capval)

        def is_cap(e):
            return lin(e) == capl or is_f(e, M, "capacity") and not any(True for _ in ())

        ht = stored(q, M, S, "hash_table")
        ht = strip_casts(ht) if ht is not None else None
        ok = False
        if ht and ht[0] == "call" and ht[1] == "rti_gc_malloc":
            t, k = lin(ht[3])
            want = linear(("bin", "mul", ("c", 8), U(capval)))
            ok = (t, k) == want or lin(ht[3]) == lin(("bin", "mul", capval, ("c", 8)))
            if not ok:
                s_ = U(ht[3])
                if s_[0] == "bin" and s_[1] in ("mul", "shl"):
                    for x, y in ((s_[2], s_[3]), (s_[3], s_[2])):
                        if const(y) == (8 if s_[1] == "mul" else 3) and is_cap(x):
                            ok = True
        c.check(rule, "%s slot array" % name, ok, "%s|hash_table" % name, end, "%s allocates the slot array as %s for capacity %s" % (name, show(ht)[:60] if ht else None, show(capval)), tr)
        for fld, h in (("key_data", kh),) + ((("value_data", vh),) if vh is not None else ()):
            d = stored(q, M, S, fld)
            d = strip_casts(d) if d is not None else None
            ok = d is not None and d[0] == "call" and d[1] == "rti_array_new" and is_cap(d[4]) and strip_casts(d[3])[0] == "call" and \
                strip_casts(d[3])[1] == "rt_find_rtype" and U(strip_casts(d[3])[3]) == U(h)
            c.check(rule, "%s %s" % (name, fld), ok, "%s|%s" % (name, fld), end, "%s allocates %s as %s for capacity %s" % (name, fld, show(d)[:80] if d else None, show(capval)), tr)
        for e in q.ev:
            if e.k == "call" and e.name.startswith(("llvm.memset", "memset")) and ht and U(e.args[0]) == U(ht):
                c.check(rule, "%s clears the slots" % name, const(e.args[1]) == 0 and lin(e.args[2]) == lin(ht[3]), "%s|clear" % name, e.loc,
                        "%s clears %s bytes of a slot array of %s" % (name, show(e.args[2]), show(ht[3])), tr)

    def create(name, S, R, kh, vh):
        f = p.need(name)
        c.unit(f)
        n = 0
        for q in W().paths(f):
            if q.dead:
                continue
            n += 1
            tr = q.trace()
            end = q.end_loc()
            cap = q.value_at(("fld", R, S, "capacity"))
            if cap is None or const(cap) is None or const(cap) < 2:
                c.bad("create", "%s|capacity" % name, end, "%s creates a table with capacity %s" % (name, show(cap) if cap else None), tr)
                continue
            ln = q.value_at(("fld", R, S, "length"))
            c.check("create", "%s length" % name, ln is not None and const(ln) == 0, "%s|length" % name, end, "%s creates a table of length %s" % (name, show(ln) if ln else None), tr)
            for fld, h in (("key_rtype_hash", kh), ("value_rtype_hash", vh)):
                if h is None:
                    continue
                v = q.value_at(("fld", R, S, fld))
                c.check("create", "%s %s" % (name, fld), v is not None and U(v) == U(h), "%s|%s" % (name, fld), end, "%s records %s as %s" % (name, show(v) if v else None, fld), tr)
            storage(name, R, S, q, tr, cap, kh, vh, "create")
        c.need(n, "%s has no returning path" % name)

    RES = ("al", -1, "result", "result")
    a = lambda i: ("a", i)
    c.section(create, "rt_map_new", "n_map_t", RES, a(2), a(3))
    c.section(create, "rt_map_new_out", "n_map_t", a(0), a(2), a(3))
    c.section(create, "rt_set_new", "n_set_t", RES, a(2), None)
    c.section(create, "rt_set_new_out", "n_set_t", a(0), a(2), None)

    def alloc():
        f = p.need("rt_map_alloc")
        c.unit(f)
        for q in W().paths(f):
            if q.dead:
                continue
            r = U(q.ev[-1].val)
            ok = r[0] == "call" and r[1] == "rti_gc_malloc"
            cap = q.value_at(("fld", strip_casts(q.ev[-1].val), "n_map_t", "capacity"))
            ok = ok and cap is not None and const(cap) is not None and const(cap) > 1
            c.check("create", "rt_map_alloc", ok, "rt_map_alloc", q.end_loc(), "the map allocated on the heap is not a fresh map", q.trace())

    c.section(alloc)

    def lazily(g):
        c.unit(g)
        S = "n_map_t" if g.file.endswith("map.c") else "n_set_t"
        M = ("a", 0)
        n = 0
        for q in W(inline=lambda x: x.name not in STOP and x.file in FILES and x.name not in res).paths(g):
            if q.dead:
                continue
            tr = q.trace()
            changed = any(e.k == "store" and any(x[0] == "fld" and x[1] == M for x in subexprs(U(e.addr))) for e in q.ev)
            if not changed:
                live = {fname(l) for pr, l, r, _ in known(q) if pr in ("ne", "ugt", "sgt") and const(r) == 0}
                c.check("create", "%s leaves a usable table" % g.name, "capacity" in live, "%s|skip" % g.name, q.end_loc(), "%s leaves a table without capacity as it is" % g.name, tr)
                continue
            n += 1
            cap = stored(q, M, S, "capacity")
            ln = stored(q, M, S, "length")
            c.check("create", "%s capacity" % g.name, cap is not None and const(cap) is not None and const(cap) > 1, "%s|capacity" % g.name, q.end_loc(),
                    "%s sets capacity %s" % (g.name, show(cap) if cap else None), tr)
            c.check("create", "%s length" % g.name, ln is not None and const(ln) == 0, "%s|length" % g.name, q.end_loc(), "%s sets length %s" % (g.name, show(ln) if ln else None), tr)
            if cap is not None:
                storage(g.name, M, S, q, tr, cap, ("ld", ("fld", M, S, "key_rtype_hash"), 0), ("ld", ("fld", M, S, "value_rtype_hash"), 0) if S == "n_map_t" else None, "create")
        c.need(n, "%s never creates storage" % g.name)

    def grow(g):
        c.unit(g)
        ismap = g.file.endswith("map.c")
        S = "n_map_t" if ismap else "n_set_t"
        M = ("a", 0)
        ADD = {"rt_map_assign"} if ismap else {"_rt_set_add", "rt_set_add"}
        n = 0
        full = 0
        for q in W(loops=2, pure=PURE | ADD, inline=lambda x: x.name not in STOP and x.name not in ADD and x.file in FILES and x.name not in res).paths(g):
            if q.dead:
                continue
            n += 1
            tr = q.trace()
            end = q.end_loc()
            cap = stored(q, M, S, "capacity")
            k = None
            if cap is not None:
                t, kk = lin(cap)
                if len(t) == 1 and is_f(list(t)[0], M, "capacity"):
                    k = list(t.values())[0]
            c.check("grow", "%s capacity" % g.name, k is not None and k >= 2, "%s|capacity" % g.name, end, "%s sets capacity %s" % (g.name, show(cap) if cap else None), tr)
            if k is None:
                continue
            storage(g.name, M, S, q, tr, cap, ("ld", ("fld", M, S, "key_rtype_hash"), 0), ("ld", ("fld", M, S, "value_rtype_hash"), 0) if ismap else None, "grow")
            adds = [e for e in q.ev if e.k == "call" and e.name in ADD]
            setup_ok = True
            if adds:
                before = q.ev[:q.index(adds[0])]
                z = [e for e in before if e.k == "store" and U(e.addr) == ("fld", M, S, "length")]
                c.check("grow", "%s length" % g.name, bool(z) and const(z[-1].val) == 0, "%s|length" % g.name, adds[0].loc, "%s re-inserts before resetting the length" % g.name, tr)
                for fld in ("capacity", "hash_table", "key_data") + (("value_data",) if ismap else ()):
                    done = any((e.k == "store" and U(e.addr) == ("fld", M, S, fld)) or (e.k == "call" and e.name == "rti_write_barrier_ptr" and U(e.args[0]) == ("fld", M, S, fld)) for e in before)
                    c.check("grow", "%s new %s first" % (g.name, fld), done, "%s|order%s" % (g.name, fld), adds[0].loc, "%s re-inserts before %s is replaced" % (g.name, fld), tr)
            # which entries were visited
            visited = {}
            def entry(e, fld, hf):
                """index of an address in the OLD array"""
                el = elem(e)
                if el is None:
                    # index folded to 0
                    if old(e, fld):
                        return 0
                    return None
                if not old(el[0], fld) or not okfld2(size_of(el[1]), hf):
                    return None
                return const(el[2])
            def old(e, fld):
                f = fldname(e)
                return f is not None and f[1] == fld and (f[0] == M or f[0][0] == "al")
            def okfld2(e, hf):
                f = fldname(e) if e is not None else None
                return f is not None and f[1] == hf
            for e in adds:
                i = entry(e.args[1], "key_data", "key_rtype_hash")
                c.check("grow", "%s re-inserts an old key" % g.name, U(e.args[0]) == M and i is not None and i not in visited, "%s|key" % g.name, e.loc,
                        "%s re-inserts %s" % (g.name, show(e.args[1])[:80]), tr)
                if i is None:
                    continue
                visited[i] = e
                if ismap:
                    cp = [x for x in q.ev if x.k == "call" and (is_copy(x) or x.name == "rti_write_barrier_rtype") and U(x.args[0]) == U(e.res) and x.res != e.res and strip_casts(x.args[0]) == strip_casts(e.res)]
                    okv = len(cp) == 1 and entry(cp[0].args[1], "value_data", "value_rtype_hash") == i and (
                        okfld2(size_of(cp[0].args[2]), "value_rtype_hash") if is_copy(cp[0]) else okcopy2(cp[0]))
                    c.check("grow", "%s keeps the value" % g.name, okv, "%s|value" % g.name, e.loc, "%s does not carry the value of a re-inserted key over" % g.name, tr)
            # skipped entries must be deleted ones
            rounds = max([const(r) or 0 for pr, l, r, _ in known(q) if fname(l) == "length" and pr in ("ule", "eq", "sle")] +
                         [const(l) or 0 for pr, l, r, _ in known(q) if fname(r) == "length" and pr in ("uge", "eq", "sge") and const(l) is not None] + [-1])
            c.check("grow", "%s covers all entries" % g.name, rounds >= 0, "%s|bound" % g.name, end, "%s does not run up to the old length" % g.name, tr)
            for i in range(max(rounds, 0)):
                if i in visited:
                    full += 1
                    continue
                skip = False
                for e in q.ev:
                    if e.k == "call" and e.name == "find_hash_slot" and entry(e.args[4], "key_data", "key_rtype_hash") == i:
                        for pr, l, r, _ in known(q):
                            fl = flag((pr, l, r))
                            if fl and fl[1] == DEL and fl[2] and any(U(x) == U(e.res) for x in subexprs(U(fl[0]))):
                                skip = True
                c.check("grow", "%s skips only deleted entries" % g.name, skip, "%s|skip" % g.name, end, "%s drops old entry %d" % (g.name, i), tr)
        c.need(n and full, "%s never re-inserts" % g.name)

    def okcopy2(e):
        t = strip_casts(e.args[2])
        return t[0] == "call" and t[1] == "rt_find_rtype" and fname(t[3]) == "value_rtype_hash"

    for nm, g in sorted(res.items()):
        c.section(grow if nm in growers else lazily, g)

    # ---------------------------------------------------------------- iteration
    def iterate(name, step, what):
        f = p.need(name)
        c.unit(f)
        I, CUR, OUT = ("a", 0), ("a", 2), ("a", 3)
        KM, KC, KV = p.enum("TYPE_MAP"), p.enum("TYPE_CHAN"), {p.enum("TYPE_VEC"), p.enum("TYPE_STRING")}
        n = 0
        served = set()
        for q in W().paths(f):
            if q.dead or any(e.k == "call" and e.name == "exit" for e in q.ev):
                continue
            tr, end = q.trace(), q.end_loc()
            kinds = set()
            for pr, l, r, _ in known(q):
                if fname(l) == "kind" and pr == "eq":
                    kinds.add(const(r))
            rc = [e for e in q.ev if e.k == "call" and e.name == "rt_chan_recv"]
            if rc:
                c.check("iterate", "%s channel" % name, kinds == {KC} and len(rc) == 1 and U(rc[0].args[0]) == I and U(rc[0].args[1]) == OUT and const(rc[0].args[2]) == 0 and
                        const(q.ev[-1].val) not in (-1, None), "%s|chan" % name, end, "%s does not receive the next value of the channel" % name, tr)
                continue
            cur = ("bin", "add", CUR, ("c", step))
            inside = None
            for pr, l, r, _ in known(q):
                for x, y, pp in ((l, r, pr), (r, l, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pr, pr))):
                    if fldname(y) == (I, "length"):
                        t, k = lin(x)
                        if t == {CUR: 1}:
                            d = k - step
                            if pp in ("ult", "slt") and d == 0 or pp in ("ule", "sle") and d == 1:
                                inside = True
                            elif pp in ("uge", "sge") and d == 0 or pp in ("ugt", "sgt") and d == -1:
                                inside = False
            cps = [e for e in q.ev if is_copy(e) and U(e.args[0]) == OUT]
            sts = [e for e in q.ev if e.k == "store" and any(x == OUT for x in subexprs(U(e.addr)))]
            if inside is None:
                c.bad("iterate", "%s|bound" % name, end, "%s goes on without comparing its position with the length" % name, tr)
                continue
            n += 1
            ret = q.ev[-1].val if q.ev[-1].k == "ret" else None
            if inside is False:
                c.check("iterate", "%s end" % name, not cps and not sts and (ret is None or const(ret) == -1), "%s|end" % name, end, "%s answers %s behind the last entry" % (
                    name, show(ret) if ret else None), tr)
                continue
            if step:
                c.check("iterate", "%s position" % name, ret is not None and lin(ret) == lin(cur), "%s|pos" % name, end, "%s answers position %s" % (name, show(ret)), tr)
            mp = KM in kinds
            served |= kinds
            c.check("iterate", "%s kind" % name, mp or bool(kinds & KV), "%s|kind" % name, end, "%s treats an object that is neither vec, string nor map as one" % name, tr)
            if what == "key" and not mp:
                ok = False
                for e in cps:
                    v = q.value_at(e.args[1]) if strip_casts(e.args[1])[0] == "al" else None
                    ok = const(e.args[2]) == 8 and (v is None or lin(v) == lin(cur))
                for e in sts:
                    ok = lin(e.val) == lin(cur)
                c.check("iterate", "%s index" % name, ok, "%s|index" % name, end, "%s does not yield the position of the element" % name, tr)
                continue
            fld, hf = (("key_data", "key_rtype_hash") if what == "key" else ("value_data", "value_rtype_hash")) if mp else ("data", None)
            ok = False
            for e in cps:
                el = elem(e.args[1])
                ok = el is not None and fldname(el[0]) == (I, fld) and lin(el[2]) == lin(cur) and U(el[1]) == U(e.args[2]) and (
                    okfld(size_of(el[1]), I, hf) if mp else fldname(el[1]) == (I, "element_size"))
                if not ok and el is not None and step == 1 and False:
                    pass
            c.check("iterate", "%s element" % name, ok and len(cps) == 1, "%s|element" % name, end, "%s copies %s" % (
                name, ", ".join("%s bytes of %s" % (show(e.args[2])[:40], show(e.args[1])[:60]) for e in cps) or "nothing"), tr)
        c.need(n, "%s: iteration paths not recognised" % name)
        for k, t in ((KM, "map"),) + tuple((x, "vec or string") for x in sorted(KV)):
            c.check("iterate", "%s serves %s" % (name, t), k in served, "%s|serves%d" % (name, k), f.file, "%s never yields an element of a %s" % (name, t))

    c.section(iterate, "iterator_next_key", 1, "key")
    c.section(iterate, "iterator_next_value", 1, "value")
    c.section(iterate, "iterator_take_value", 0, "value")

    # ---------------------------------------------------------------- compiler
    def lowering():
        P = Program("compiler", lambda f: f.startswith("src/linear.c") or f.startswith("src/lir"))
        f = P.need("linear_map_assign")
        c.unit(f)
        n = 0
        for q in Walker(P, vn=True, loops=1, max_paths=4000, inline=lambda g: False).paths(f):
            if q.dead:
                continue
            tr = q.trace()
            take = [e for e in q.ev if e.k == "call" and e.name == "push_rt_call" and ("s", "rt_map_assign") in [strip_casts(x) for x in e.args]]
            right = [e for e in q.ev if e.k == "call" and e.name == "linear_expr" and any(x[0] == "fld" and x[3] == "right" for a in e.args for x in subexprs(a))]
            right += [e for e in q.ev if is_copy(e) and any(x[0] == "fld" and x[3] == "right" for x in subexprs(e.args[1]))] if not right else []
            if not take:
                c.bad("lowering", "linear_map_assign|call", q.end_loc(), "an assignment to a map entry does not take the entry's place", tr)
                continue
            n += 1
            ev = [e for e in q.ev if e.k == "call" and e.name == "linear_expr"]
            late = [e for e in ev if q.index(e) > q.index(take[-1])]
            c.check("lowering", "value before place", len(take) == 1 and not late and len(ev) >= 2, "linear_map_assign|order", take[-1].loc,
                    "the place of a map entry is taken before the assigned value is computed", tr)
        c.need(n, "map assignment lowering not recognised")
        f = P.need("linear_for_iterator")
        c.unit(f)
        BEE = P.enum("LIR_OPCODE_BEE")
        for q in Walker(P, vn=True, loops=1, max_paths=4000, inline=lambda g: False).paths(f):
            if q.dead:
                continue
            nx = [e for e in q.ev if e.k == "call" and e.name == "push_rt_call" and any(strip_casts(x) in (("s", "iterator_next_key"), ("s", "iterator_next_value")) for x in e.args)]
            if len(nx) != 1:
                c.bad("lowering", "linear_for_iterator|next", q.end_loc(), "a for loop does not step its iterator exactly once per round", q.trace())
                continue
            i = q.index(nx[0])
            curs = U(nx[0].args[2])
            bee = [e for e in q.ev[i:] if e.k == "call" and e.name == "lir_op_new" and const(e.args[0]) == BEE and curs in [U(x) for x in e.args[1:3]]]
            bodyc = [e for e in q.ev if e.k == "call" and e.name == "linear_body"]
            take = [e for e in q.ev if e.k == "call" and e.name == "push_rt_call" and ("s", "iterator_take_value") in [strip_casts(x) for x in e.args]]
            ok = len(bee) >= 1 and len(bodyc) == 1 and i < q.index(bee[0]) < q.index(bodyc[0]) and all(q.index(bee[0]) < q.index(t) < q.index(bodyc[0]) for t in take)
            c.check("lowering", "for loop leaves at the end", ok, "linear_for_iterator|end", nx[0].loc, "a for loop does not test for the end between stepping and its body", q.trace())
            c.check("lowering", "cursor is stepped in place", any(U(x) == curs for x in nx[0].args[3:]) and all(any(U(x) == curs for x in t.args) for t in take),
                    "linear_for_iterator|cursor", nx[0].loc, "a for loop steps from another position than the one it stores", q.trace())

    c.section(lowering)


main("R11", TECH, body)
