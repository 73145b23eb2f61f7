"""R23: the tables the compiler embeds are read back by the runtime field for field"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import *
from util import *
from natdecl import Types

TECH = "comparison of record layouts of both programs, and path enumeration of the writers and readers of each embedded table"
RECORDS = ("symdef_t", "fndef_t", "caller_t", "rtype_t", "rtype_field_t")
# table -> symbol of the data, symbol of the count, (data sources), (sizes), (counts)
TABLES = {
    "rtype": ("rt_rtype_data", "rt_rtype_count", ("ct_rtype_data", "rtypes_serialize"), ("*(ct_rtype_size)",), ("ct_rtype_count",)),
    "fndef": ("rt_fndef_data", "rt_fndef_count", ("ct_fndef_data", "fndefs_serialize"), ("*(ct_fndef_size)", "collect_fndef_list(CTX)", "(*(ct_fndef_count) mul 64)"), ("ct_fndef_count",)),
    "caller": ("rt_caller_data", "rt_caller_count", ("ct_caller_data", "callers_serialize"), ("(*(ct_caller_list)->length mul 40)",), ("*(ct_caller_list)->length",)),
    "symdef": ("rt_symdef_data", "rt_symdef_count", ("ct_symdef_data", "symdefs_serialize"), ("*(ct_symdef_size)", "collect_symdef_list(CTX)", "(*(ct_symdef_count) mul 32)"), ("ct_symdef_count",)),
    "data": ("rt_data", None, ("ct_data",), ("*(ct_data_len)",), ()),
    "strings": ("rt_strtable_data", None, ("ct_strtable_data",), ("*(ct_strtable_len)",), ()),
}


def U(e):
    return unversion(strip_all(e))


def F(e):
    l = linear(e)
    try:
        if not l[0]:
            return ("c", l[1])
    except Exception:
        pass
    return e


def S(e):
    return show(U(e))


def layout(c, cp, rp):
    for r in RECORDS[:4]:
        c.need(r in cp.structs and r in rp.structs, "record %s not found in both programs" % r)
        a = [(m[0], m[1], m[2]) for m in cp.structs[r]["m"]]
        b = [(m[0], m[1], m[2]) for m in rp.structs[r]["m"]]
        d = next((x for x in zip(a + [None] * len(b), b + [None] * len(a)) if x[0] != x[1]), None)
        c.check("layout", r, d is None and cp.structs[r]["size"] == rp.structs[r]["size"], r, "%s:%d" % (cp.structs[r]["file"], cp.structs[r]["line"]),
                "record %s differs between compiler and runtime: %s" % (r, d))
    # the standard library's view of the type records
    t = Types()
    for nat, st in (("rtype_t", "rtype_t"), ("rtype_struct_t", "rtype_field_t")):
        k = [x for x in t.t if x[1] == nat and x[0].startswith("reflect")]
        c.need(len(k) == 1, "reflect.%s not found" % nat)
        body, file, line = t.t[k[0]]
        fs = re.findall(r"^\s*([\w<>\.]+)\s+(\w+)\s*(?:=.*)?$", body, re.M)
        off, got = 0, []
        for ty, name in fs:
            l = t.lay(ty, k[0][0])
            c.need(l, "size of %s is not known" % ty)
            off = (off + l[2] - 1) // l[2] * l[2]
            got.append((name, off, l[1]))
            off += l[1]
        want = [(m[0], m[1], m[2]) for m in cp.structs[st]["m"]]
        c.check("layout", "reflect." + nat, [x[1:] for x in got] == [x[1:] for x in want], "reflect." + nat, "%s:%d" % (file, line),
                "reflect.%s lays its fields out as %s, the records have %s" % (nat, got, want))


def walk(p, name, files=(), loops=1, n=4000, **kw):
    f = p.need(name)
    return f, [q for q in Walker(p, loops=loops, inline=lambda g, *a: g.file in files and g.name not in ("strtable_put", "data_put", "collect_fndef_list", "collect_symdef_list", "rtypes_serialize", "fndefs_serialize", "callers_serialize", "symdefs_serialize", "elf_put_data", "elf_put_sym", "elf_put_global_symbol", "coff_put_metadata", "mach_put_data", "type_hash", "calc_gc_bits_size", "ct_list_value", "align_up", "bitmap_set", "coff_relocate_fndefs", "coff_relocate_symdefs", "coff_metadata_section", "coff_require") and not g.name.startswith(("rtype_", "log_")), max_paths=n, **kw).paths(f) if not q.dead]


def tables(c, p):
    reach = {n: CReach(p, {n}) for n in ("data_put", "strtable_put")}
    for fn in ("elf_custom_links", "mach_custom_links", "coff_custom_links"):
        f, ps = walk(p, fn, ("src/build/build.c",))
        c.unit(fn)
        for q in ps:
            puts, counts, order = {}, {}, []
            secdata = {}
            last = {}
            for e in q.ev:
                if e.k == "store":
                    a = U(e.addr)
                    if a[0] == "fld" and a[3] in ("st_shndx", "n_sect"):
                        last["sec"] = section_of(U(e.val))
                if e.k != "call" or not isinstance(e.name, str):
                    continue
                order.append(e)
                n, a = e.name, [U(x) for x in e.args]
                if n in ("elf_put_data", "mach_put_data"):
                    secdata.setdefault(a[0], []).append((a[1], a[2], e))
                elif n == "coff_put_metadata":
                    sym = a[2][1] if a[2][0] == "s" else None
                    if sym and sym.endswith("_count"):
                        counts[sym] = (value(q, e.args[3], e), a[4], e)
                    elif sym:
                        puts[sym] = (a[3], a[4], e)
                elif n in ("elf_put_sym", "macho_put_sym", "mach_put_sym") or n.endswith("put_sym"):
                    sym = next((x[1] for x in a if x[0] == "s"), None)
                    if sym and last.get("sec") in secdata:
                        ds = secdata[last["sec"]]
                        c.check("table", fn + "." + sym, len(ds) == 1, "%s.%s" % (fn, sym), e.loc, "%s: the section of %s receives %d tables" % (fn, sym, len(ds)), q.trace())
                        puts[sym] = ds[0][:2] + (e,)
                elif n.endswith("put_global_symbol"):
                    sym = next((x[1] for x in a if x[0] == "s"), None)
                    counts[sym] = (a[2], a[3], e)
            for t, (data, cnt, srcs, sizes, cs) in TABLES.items():
                u = "%s.%s" % (fn, t)
                if data not in puts:
                    c.bad("table", u, f.loc, "%s: %s is not defined on a section holding the table" % (fn, data), q.trace())
                    continue
                d, z, e = puts[data]
                zs = re.sub(r"collect_(\w+)_list\(.*\)", r"collect_\1_list(CTX)", show(z))
                src = (d[0] == "ld" and d[1][0] == "g" and d[1][1] or d[0] == "call" and d[1])
                c.check("table", u, src in srcs, u, e.loc, "%s: %s holds %s" % (fn, data, show(d)), q.trace())
                c.check("table", u + ".size", zs in sizes, u + ".size", e.loc, "%s: %s has size %s" % (fn, data, zs), q.trace())
                if cnt:
                    if cnt not in counts:
                        c.bad("table", u + ".count", f.loc, "%s: %s is not written" % (fn, cnt), q.trace())
                        continue
                    v, w, e2 = counts[cnt]
                    vs = show(v)
                    c.check("table", u + ".count", (vs in cs or vs in ["*(%s)" % x for x in cs]) and w == ("c", 8), u + ".count", e2.loc, "%s: %s is written from %s (%s bytes)" % (fn, cnt, vs, show(w)), q.trace())
            # order: what the tables refer to is complete when it is written
            names = [e.name for e in order]
            if "callers_serialize" in names and "collect_fndef_list" in names:
                c.check("order", fn, names.index("collect_fndef_list") < names.index("callers_serialize"), fn + ".callers", f.loc,
                        "%s: call sites are written before the functions have their indices" % fn, q.trace())
            for sym, put in (("rt_data", "data_put"), ("rt_strtable_data", "strtable_put")):
                if sym not in puts:
                    continue
                at = puts[sym][2]
                pe = next((x[2] for s_ in secdata.values() for x in s_ if x[0] == puts[sym][0]), at)
                i = order.index(pe)
                late = [e for e in order[i + 1:] if e.name == put or (p.resolve(f.tu, e.name) and reach[put](p.resolve(f.tu, e.name))) or e.name in ("collect_fndef_list", "collect_symdef_list")]
                c.check("order", fn + "." + sym, not late, "%s.%s" % (fn, sym), pe.loc, "%s: %s is written before %s adds to it" % (fn, sym, late[0].name if late else ""), q.trace())


def section_of(e):
    """section object whose index is stored"""
    while e[0] in ("bin", "cast") and len(e) > 2:
        e = e[2]
    if e[0] == "ld" and e[1][0] == "fld":
        return e[1][1]
    return e


def value(q, addr, ev):
    a = U(addr)
    if a[0] == "al":
        v = None
        for e in q.ev:
            if e is ev:
                break
            if e.k == "store" and U(e.addr) == a:
                v = U(e.val)
        if v is not None:
            return v[1] if v[0] == "ld" else v
    return a


def records(c, p):
    f, ps = walk(p, "collect_fndef_list", ("src/binary/linker.h",), loops=2, n=40000)
    want = {"stack_size": ("CL->stack_offset",), "gc_bits_offset": None, "name_offset": ("strtable_put(CL->linkident)",), "relpath_offset": ("strtable_put(CL->fndef->rel_path)",),
            "line": ("CL->fndef->line",), "column": ("CL->fndef->column",), "size": ("CL->text_count",)}
    collect(c, f, ps, "fndef_t", 64, want, "ct_fndef_list", "ct_fndef_count", "linkident")
    f, ps = walk(p, "collect_symdef_list", ("src/binary/linker.h",), loops=2, n=40000)
    want = {"hash": ("type_hash(CL->type)",), "size": ("CL->type->storage_size",), "name_offset": ("strtable_put(CL->ident)",)}
    collect(c, f, ps, "symdef_t", 32, want, "ct_symdef_list", "ct_symdef_count", "ident")


def collect(c, f, ps, st, size, want, lst, cnt, link):
    c.unit(f.name)
    c.need(ps, "no path through " + f.name)
    some, seen = 0, set()
    for q in ps:
        recs, idx, rel = {}, {}, []
        total = ret = None
        for e in q.ev:
            if e.k == "store":
                a = U(e.addr)
                if a[0] == "fld" and a[2] == st and a[1][0] == "idx":
                    recs.setdefault(a[1][2], {})[a[3]] = (U(e.val), e)
                elif a[0] == "fld" and a[3] == "rt_fndef_index":
                    idx[U(e.val)] = (a[1], e)
                elif a == ("g", cnt):
                    total = (U(e.val), e)
            elif e.k == "call" and isinstance(e.name, str) and e.name.endswith("put_rel_data"):
                rel.append((U(e.args[2]), U(e.args[3]), e))
            elif e.k == "ret":
                ret = (U(e.val), e)
        iters = [i for i in recs]
        some += len(recs)
        for i, fields in recs.items():
            # the object a record describes
            obj = None
            for nm in ("line", "hash", "size", "name_offset"):
                if nm in fields:
                    x = fields[nm][0]
                    for y in subexprs(x):
                        if isinstance(y, tuple) and y and y[0] == "ld" and y[1][0] == "fld" and y[1][3] in ("closure", "ast_value"):
                            obj = y if obj is None or len(str(y)) > len(str(obj)) else obj
            if obj is None:
                c.bad("record", "%s.source" % f.name, f.loc, "%s: a record is filled from nothing recognisable" % f.name, q.trace())
                continue
            for n, ok in want.items():
                u = "%s.%s" % (f.name, n)
                if n not in fields:
                    c.bad("record", u, f.loc, "%s: field %s of a record is not written" % (f.name, n), q.trace())
                    continue
                v, e = fields[n]
                s = show(v).replace(show(obj), "CL")
                if n == "gc_bits_offset":
                    good = v[0] == "call" and v[1] == "data_put" and show(v[3]).replace(show(obj), "CL") == "CL->stack_gc_bits->bits" and v[4][0] == "call" and v[4][1] == "calc_gc_bits_size" \
                        and (show(v[4][3]).replace(show(obj), "CL") == "CL->stack_offset" or v[4][3] == ("ld", ("fld", U(e.addr)[1], st, "stack_size"), 0)
                             or show(v[4][3]).endswith("->stack_size")) and v[4][4] == ("c", 8)
                elif st == "symdef_t" and n == "size" and s != ok[0]:
                    good = re.fullmatch(r".*->data", s) and any(pr == "eq" and show(l).endswith("kind") for pr, l, r, _ in known(q, q.index(e)))
                else:
                    good = s in ok
                c.check("record", u, bool(good), u, e.loc, "%s writes %s into field %s" % (f.name, s[:160], n), q.trace())
            if st == "fndef_t":
                g = idx.get(i)
                c.check("record", f.name + ".index", g is not None and g[0] == obj, f.name + ".index", g[1].loc if g else f.loc,
                        "%s: record %s belongs to a function whose index is recorded as something else" % (f.name, show(i)), q.trace())
            for o, l, e in rel:
                if show(l).startswith(show(obj)):
                    seen.add(e.name)
                    c.check("record", f.name + ".base", o == ("c", i[1] * size if i[0] == "c" else None) and show(l) == show(obj) + "->" + link, f.name + ".base", e.loc,
                            "%s: the address of record %s is relocated at %s to %s" % (f.name, show(i), show(o), show(l)), q.trace())
        n = len(recs)
        c.check("record", f.name + ".dense", sorted(i[1] for i in recs if i[0] == "c") == list(range(n)), f.name + ".dense", f.loc, "%s: records are not written to consecutive slots" % f.name, q.trace())
        if total is not None:
            c.check("record", f.name + ".count", total[0] == ("c", n), f.name + ".count", total[1].loc, "%s: %s is %s after %d records" % (f.name, cnt, show(total[0]), n), q.trace())
        else:
            c.bad("record", f.name + ".count", f.loc, "%s never sets %s" % (f.name, cnt), q.trace())
        if ret is not None:
            v = F(ret[0])
            good = v == ("c", n * size) or show(v) == "(*(%s) mul %d)" % (cnt, size)
            c.check("record", f.name + ".size", good, f.name + ".size", ret[1].loc, "%s returns size %s for %d records of %d bytes" % (f.name, show(v), n, size), q.trace())
    for n in ("elf_put_rel_data", "mach_put_rel_data"):
        c.check("record", f.name + "." + n, n in seen, f.name + "." + n, f.loc, "%s: records have no relocated address (%s)" % (f.name, n))
    c.need(some, "%s writes no record" % f.name)


def coff(c, p):
    for fn, size, link in (("coff_relocate_fndefs", 64, "linkident"), ("coff_relocate_symdefs", 32, "ident")):
        f, ps = walk(p, fn, n=20000)
        c.unit(fn)
        n = 0
        for q in ps:
            k = 0
            for e in q.ev:
                if e.k == "call" and e.name == "coff_add_addr64_relocation":
                    n += 1
                    l = linear(strip_all(U(e.args[2])))
                    good = S(e.args[3]).endswith("->" + link) and show(U(e.args[2])) in ("arg2" if k == 0 else "(arg2 add %d)" % (k * size), "(arg2 add %d)" % (k * size), "((arg2 add %d) add 0)" % (k * size))
                    c.check("record", fn, good, fn, e.loc, "%s relocates record %d at %s to %s" % (fn, k, S(e.args[2]), S(e.args[3])), q.trace())
                    k += 1
        c.need(n, fn + " relocates nothing")


def callers(c, p):
    """every recorded call site"""
    n = 0
    for fn in p.unique():
        for i in fn.insts():
            if i.op != "call" or i.callee != "ct_list_push" or i.bb not in fn.dom:
                continue
            if "ct_caller_list" not in show(static_expr(fn, i.ops[0])):
                continue
            n += 1
            c.unit(fn.name)
            rec = strip_all(static_expr(fn, i.ops[1]))
            st = {}
            for s in fn.insts():
                if s.op == "store":
                    a = strip_all(static_expr(fn, s.ops[1]))
                    if a[0] == "fld" and a[1] == rec and a[2] == "caller_t":
                        st.setdefault(a[3], []).append(s)
                    elif a == rec:
                        st.setdefault("offset", []).append(s)
            u = "%s:%d" % (fn.name, sum(1 for x in fn.insts() if x.op == "call" and x.callee == "ct_list_push" and x.line < i.line))
            val = {k: [strip_all(unversion(static_expr(fn, s.ops[0]))) for s in v] for k, v in st.items()}

            def has(k, pred, msg):
                vs = val.get(k, [])
                c.check("caller", u + "." + k, any(pred(v) for v in vs), u + "." + k, i.loc, "%s: %s (stored: %s)" % (fn.name, msg, ", ".join(show(v)[:100] for v in vs)))
            line = val.get("line", [None])[0]
            has("line", lambda v: v[0] == "ld" and v[1][0] == "fld" and v[1][3] == "line", "the line of a call site is not its instruction's")
            has("column", lambda v: v[0] == "ld" and v[1][0] == "fld" and v[1][3] == "column" and line is not None and line[0] == "ld" and v[1][1] == line[1][1], "the column of a call site is not its instruction's")
            has("data", lambda v: v[0] == "a" and (fn.argn[v[1]] or "").startswith("c") or v[0] == "ld" or v[0] in ("phi", "call", "idx"), "a call site is not tied to its function")
            if fn.argt and any((a or "").endswith("size") for a in fn.argn):
                k = next(j for j, a in enumerate(fn.argn) if (a or "").endswith("size"))
                has("offset", lambda v: v == ("a", k), "the return address of a call site is not the end of its instruction")
                for call in p.callers(fn.name):
                    e = strip_all(static_expr(call.fn, call.ops[k]))
                    c.check("caller", u + ".end", counted(e) or advanced(p, call, e), u + ".end", call.loc, "%s: the return address of a call site does not include the call instruction (%s)" % (call.fn.name, show(e)[:100]))
            else:
                has("offset", counted, "the return address of a call site does not include the call instruction")
            has("target_name_offset", lambda v: v[0] == "call" and v[1] == "strtable_put", "the called name of a call site is not in the string table")
    c.need(n >= 4, "only %d places record call sites" % n)


def counted(e):
    """a running offset to which the size of the current instruction has been added"""
    t, k = linear(strip_all(e))
    return all(v > 0 for v in t.values()) and k >= 0 and (len(t) > 1 or k > 0)


def advanced(p, call, e):
    """the running offset behind a pointer that a dominating call has advanced"""
    if e[0] != "ld":
        return False
    f = call.fn
    for i in f.insts():
        if i.op == "call" and i is not call and isinstance(i.callee, str) and f.dominates(i, call):
            g = p.resolve(f.tu, i.callee)
            for k, o in enumerate(i.ops or []):
                if g and strip_all(unversion(static_expr(f, o))) == unversion(e[1]):
                    for s in g.insts():
                        if s.op == "store" and strip_all(static_expr(g, s.ops[1])) == ("a", k) and counted(static_expr(g, s.ops[0])):
                            return True
    return False


def buffers(c, p):
    for fn, pre, extra in (("strtable_put", "ct_strtable", 1), ("data_put", "ct_data", 0)):
        f, ps = walk(p, fn, n=5000)
        c.unit(fn)
        data = pre + "_data" if extra else "ct_data"
        n = 0
        for q in ps:
            copies = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and ("memcpy" in e.name or "memset" in e.name)]
            lens = [e for e in q.ev if e.k == "store" and U(e.addr) == ("g", pre + "_len")]
            rets = [e for e in q.ev if e.k == "ret"]
            fresh = any(U(e.val) == ("c", 0) for e in lens)
            grown = [e for e in lens if U(e.val) != ("c", 0)]
            if not copies and not grown:
                # an offset already handed out for the same key
                c.check("buffer", fn + ".reuse", bool(rets) and U(rets[0].val)[0] == "call" and "map_get" in U(rets[0].val)[1], fn + ".reuse", q.end_loc(), "%s returns an offset without adding the data" % fn, q.trace())
                continue
            n += 1
            old = ("ld", ("g", pre + "_len"), 0)
            cur = lambda e: ("c", 0) if fresh and e == ("c", 0) else e
            ln = linear(strip_all(U(copies[-1].args[2])))
            want_len = show(U(copies[-1].args[2]))
            good = len(copies) == 1
            c.check("buffer", fn + ".copy", good, fn + ".copy", copies[0].loc if copies else q.end_loc(), "%s copies the data %d times" % (fn, len(copies)), q.trace())
            # appended at the old end
            dst = U(copies[0].args[0])
            at = dst[2] if dst[0] == "idx" else None
            okdst = dst[0] == "idx" and dst[1] in (("ld", ("g", data), 0),) + tuple(U(e.val) for e in q.ev if e.k == "store" and U(e.addr) == ("g", data)) and at in (old, ("c", 0) if fresh else old)
            c.check("buffer", fn + ".place", okdst, fn + ".place", copies[0].loc, "%s copies to %s" % (fn, show(dst)), q.trace())
            # the offset is read before the length moves
            k = q.index(grown[0]) if grown else 0
            late = {e.res for e in q.ev[k + 1:] if e.k == "load" and U(e.addr) == ("g", pre + "_len")} - {e.res for e in q.ev[:k] if e.k == "load"}
            c.check("buffer", fn + ".before", not (rets and any(x in late for x in subexprs(rets[-1].val))) and not any(x in late for x in subexprs(copies[0].args[0])), fn + ".before", q.end_loc(), "%s uses its length as offset after advancing it" % fn, q.trace())
            c.check("buffer", fn + ".offset", bool(rets) and U(rets[-1].val) == at, fn + ".offset", q.end_loc(), "%s returns %s for data at %s" % (fn, S(rets[-1].val) if rets else "-", show(at) if at else "?"), q.trace())
            size = U(copies[0].args[2])
            wantsize = linear(size) == linear(("bin", "add", ("call", "strlen", 0, ("a", 0)), ("c", 1))) if extra else size == ("a", 1)
            c.check("buffer", fn + ".length", wantsize, fn + ".length", copies[0].loc, "%s copies %s bytes" % (fn, show(size)), q.trace())
            okl = len(grown) == 1 and linear(F(U(grown[0].val))) == linear(F(("bin", "add", at or old, size)))
            c.check("buffer", fn + ".grow", okl, fn + ".grow", grown[0].loc if grown else q.end_loc(), "%s advances its length to %s" % (fn, S(grown[0].val) if grown else "nothing"), q.trace())
            # room: the last comparison of the needed size with the capacity came out as fitting
            cap = [(pr, l, r) for pr, l, r, _ in known(q, q.index(copies[0])) if "_cap" in show(l) + show(r)]
            fit = [x for x in cap if x[0] in ("ule", "uge", "ult", "ugt")]
            ok = fit and (fit[-1][0] == "ule" and "_cap" in show(fit[-1][2]) or fit[-1][0] == "uge" and "_cap" in show(fit[-1][1]))
            if fit:
                c.check("buffer", fn + ".room", bool(ok), fn + ".room", copies[0].loc, "%s copies without room for the data" % fn, q.trace())
            # a grown capacity is allocated
            caps = [e for e in q.ev if e.k == "store" and U(e.addr) == ("g", pre + "_cap") and U(e.val)[0] != "c"]
            re_ = [e for e in q.ev if e.k == "call" and e.name == "realloc"]
            if caps:
                c.check("buffer", fn + ".realloc", bool(re_) and q.index(re_[-1]) > q.index(caps[-1]), fn + ".realloc", caps[-1].loc, "%s raises its capacity without allocating it" % fn, q.trace())
        c.need(n, fn + " never adds data")


def serialize(c, p):
    for fn, src, size in (("fndefs_serialize", "*(ct_fndef_list)", "(*(ct_fndef_count) mul 64)"), ("rtypes_serialize", "*(ct_rtype_list)->take", "(*(ct_rtype_list)->length mul %d)" % p.structs["rtype_t"]["size"]),
                          ("callers_serialize", "*(ct_caller_list)->take", "(*(ct_caller_list)->length mul 40)")):
        f, ps = walk(p, fn)
        c.unit(fn)
        n = 0
        for q in ps:
            mv = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and ("memmove" in e.name or "memcpy" in e.name)]
            ret = [e for e in q.ev if e.k == "ret"]
            if not mv and ret and U(ret[-1].val) == ("c", 0):
                continue
            n += 1
            c.check("serialize", fn, len(mv) == 1 and S(mv[0].args[1]) == src and S(mv[0].args[2]) == size and U(mv[0].args[0]) == U(ret[-1].val), fn, mv[0].loc if mv else q.end_loc(),
                    "%s copies %s bytes of %s" % (fn, S(mv[0].args[2]) if mv else "no", S(mv[0].args[1]) if mv else "-"), q.trace())
            if fn == "callers_serialize":
                st = [e for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[3] == "data"]
                its = [e for e in q.ev if e.k == "call" and e.name == "ct_list_value"]
                c.check("serialize", fn + ".index", len(st) == len(its) and all(re.fullmatch(r"ct_list_value\(\*\(ct_caller_list\), (\d+)\)->data->rt_fndef_index", S(e.val)) and S(e.val).startswith(show(U(e.addr)[1])) for e in st),
                        fn + ".index", (st or its or [ret[-1]])[0].loc, "%s does not replace each call site's function by its index" % fn, q.trace())
        c.need(n, fn + " copies nothing")


def push(c, p):
    """a type record is stored whole and counted"""
    f, ps = walk(p, "rtype_push", loops=1)
    c.unit(f.name)
    for q in ps:
        ev = [e for e in q.ev if e.k == "call" and e.name == "ct_list_push"]
        if len(ev) != 1:
            c.bad("type", "rtype_push", f.loc, "rtype_push adds %d records" % len(ev), q.trace())
            continue
        obj = U(ev[0].args[1])
        got = {U(e.addr)[3]: U(e.val) for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[1] == obj}
        for m in p.structs["rtype_t"]["m"]:
            v = got.get(m[0])
            if obj == ("a", 0):
                continue
            good = v is not None and v[0] == "ld" and v[1][0] == "fld" and v[1][1] == ("a", 0) and v[1][3] == m[0] or v is not None and v == ("ld", ("a", 0), 0)
            c.check("type", "rtype_push." + m[0], bool(good), "rtype_push." + m[0], ev[0].loc, "rtype_push stores %s as field %s" % (show(v) if v else "nothing", m[0]), q.trace())
        for g, n in (("ct_rtype_size", p.structs["rtype_t"]["size"]), ("ct_rtype_count", 1)):
            st = [e for e in q.ev if e.k == "store" and U(e.addr) == ("g", g)]
            c.check("type", "rtype_push." + g, len(st) == 1 and linear(U(st[0].val)) == ({("ld", ("g", g), 0): 1}, n), "rtype_push." + g, st[0].loc if st else f.loc, "rtype_push sets %s to %s" % (g, S(st[0].val) if st else "nothing"), q.trace())


def types(c, p):
    """each type record agrees with the variable-length data it points to"""
    f = p.need("reflect_type")
    names = sorted({i.callee for i in f.insts() if i.op == "call" and isinstance(i.callee, str) and i.callee.startswith("rtype_")})
    c.need(len(names) >= 15, "reflect_type builds only %s" % names)
    for fn in names:
        f, ps = walk(p, fn, n=5000)
        c.unit(fn)
        c.need(ps, "no path through " + fn)
        for q in ps:
            val, evs = {}, {}
            for e in q.ev:
                if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[1] == ("a", 0) and U(e.addr)[2] == "rtype_t":
                    val[U(e.addr)[3]] = U(e.val)
                    evs[U(e.addr)[3]] = e
            if "hash" not in val:
                c.bad("type", fn + ".hash", f.loc, "%s: the record has no hash" % fn, q.trace())
                continue
            c.check("type", fn + ".hash", show(val["hash"]) == "type_hash(arg1)", fn + ".hash", evs["hash"].loc, "%s: the record's hash is %s" % (fn, show(val["hash"])), q.trace())
            sub = {("ld", ("fld", ("a", 0), "rtype_t", k), 0): v for k, v in val.items()}

            def res(e):
                if not isinstance(e, tuple):
                    return e
                if e in sub:
                    return res(sub[e])
                return tuple(res(x) if isinstance(x, tuple) else x for x in e)
            length, h = val.get("length", ("c", 0)), val.get("hashes_offset", ("c", 0))
            lf = linear(F(res(length)))
            if h == ("c", -1) or h == ("c", 0):
                zero = length == ("c", 0) or any(l == length and r == ("c", 0) and pr in ("eq", "ule", "sle") or l == ("c", 0) and r == length and pr in ("uge", "sge") for pr, l, r, _ in map(lambda k: (k[0], U(k[1]), U(k[2]), k[3]), known(q, len(q.ev))))
                c.check("type", fn + ".hashes", zero, fn + ".hashes", evs["length"].loc if "length" in evs else f.loc, "%s: a record reporting %s elements has no element data" % (fn, show(length)), q.trace())
            else:
                rec = p.structs["rtype_field_t"]["size"] if val.get("kind") == ("c", p.enum("TYPE_STRUCT")) else 8
                size = F(res(h[4])) if h[0] == "call" and h[1] == "data_put" else None
                want = linear(F(("bin", "mul", res(length), ("c", rec))))
                c.check("type", fn + ".hashes", size is not None and linear(size) == want, fn + ".hashes", evs["hashes_offset"].loc,
                        "%s: a record reporting %s elements points to %s bytes of element data" % (fn, show(length), show(size) if size else show(h)), q.trace())
            g = val.get("malloc_gc_bits_offset")
            heap = val.get("gc_heap_size")
            if g is not None and g[0] == "call" and g[1] == "data_put":
                z = res(g[4])
                good = z[0] == "call" and z[1] == "calc_gc_bits_size" and z[4] == ("c", 8) and (
                    F(z[3]) == F(res(heap)) or z[3][0] == "c" and val.get("last_ptr", ("?",))[0] == "c" and val["last_ptr"][1] <= z[3][1])
                c.check("type", fn + ".bits", good, fn + ".bits", evs["malloc_gc_bits_offset"].loc, "%s: %s bytes of heap data have a bitmap of %s" % (fn, show(heap), show(z)), q.trace())
            # element hashes go to their own slots
            ms = [e for e in q.ev if e.k == "store" and U(e.addr)[0] == "idx" and "ct_data" in show(U(e.addr)) and U(e.val)[0] == "call" and U(e.val)[1] == "type_hash"]
            if fn == "rtype_map":
                order = {S(e.addr)[-3:] == "[1]": S(e.val) for e in ms}
                c.check("type", fn + ".order", len(ms) == 2 and "key_type" in order.get(False, "") and "value_type" in order.get(True, ""), fn + ".order", ms[0].loc if ms else f.loc, "rtype_map: key and value hashes are stored as %s" % order, q.trace())
            if fn == "rtype_struct":
                for k in {U(e.addr)[1] for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[2] == "rtype_field_t"}:
                    fl = {U(e.addr)[3]: S(e.val) for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[1] == k}
                    c.check("type", fn + ".field", re.search(r"strtable_put\(.*->name\)", fl.get("name_offset", "")) and re.search(r"type_hash\(.*->type\)", fl.get("hash", "")) and fl.get("offset", "").startswith(("align_up", "0")),
                            fn + ".field", f.loc, "rtype_struct: a field is described as %s" % fl, q.trace())


def reading(c, p):
    """the runtime side"""
    f, ps = walk(p, "callers_deserialize")
    c.unit(f.name)
    n = 0
    for q in ps:
        offs = [e for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[2] == "caller_t" and U(e.addr)[3] == "offset" or e.k == "store" and U(e.addr)[0] == "idx" and "rt_caller" in S(e.addr)]
        puts = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and "map_put" in e.name]
        datas = [e for e in q.ev if e.k == "store" and U(e.addr)[0] == "fld" and U(e.addr)[3] == "data"]
        its = {S(e.args[2]) for e in puts} | {S(U(e.addr)[1]) for e in datas}
        for e in datas:
            n += 1
            rec = U(e.addr)[1]
            r = show(rec)
            v = U(e.val)
            okd = v[0] == "idx" and "rt_fndef" in show(v[1]) and show(v[2]) == r + "->data"
            c.check("read", f.name + ".data", okd, f.name + ".data", e.loc, "a call site is tied to %s" % show(v), q.trace())
            o = [x for x in offs if U(x.addr)[1] == rec or U(x.addr) == rec]
            oko = len(o) == 1 and linear(U(o[0].val)) == linear(("bin", "add", ("ld", ("fld", rec, "caller_t", "offset"), 0), ("ld", ("fld", v, "fndef_t", "base"), 0)))
            c.check("read", f.name + ".offset", oko, f.name + ".offset", o[0].loc if o else e.loc, "a return address is computed as %s" % (S(o[0].val) if o else "nothing"), q.trace())
            pt = [x for x in puts if U(x.args[2]) == rec]
            okp = len(pt) == 1 and (S(pt[0].args[1]) == r + "->offset" or o and U(pt[0].args[1]) == U(o[0].val)) and (not o or q.index(pt[0]) > q.index(o[0]))
            c.check("read", f.name + ".map", okp, f.name + ".map", pt[0].loc if pt else e.loc, "a call site is not registered under its return address", q.trace())
    c.need(n, "callers_deserialize reads nothing")
    # every type is findable under its hash
    f, ps = walk(p, "rtypes_deserialize", n=20000)
    c.unit(f.name)
    n = 0
    for q in ps:
        puts = [e for e in q.ev if e.k == "call" and isinstance(e.name, str) and "map_put" in e.name]
        its = set()
        for e in q.ev:
            if e.k == "assume":
                for x in subexprs(U(e.cond)):
                    if isinstance(x, tuple) and x and x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "rtype_t" and x[1][1][0] in ("idx", "g"):
                        its.add(x[1][1])
        for r in its:
            n += 1
            m = [e for e in puts if U(e.args[2]) == r]
            c.check("read", f.name, len(m) == 1 and U(m[0].args[1]) == ("ld", ("fld", r, "rtype_t", "hash"), 0), f.name, m[0].loc if m else f.loc, "a type record is registered under %s" % (S(m[0].args[1]) if m else "nothing"), q.trace())
    c.need(n, "rtypes_deserialize reads nothing")
    for fn, want in (("rt_find_data", "rt_data_ptr"), ("rt_find_strtable", "rt_strtable_ptr")):
        f, ps = walk(p, fn)
        for q in ps:
            ret = [e for e in q.ev if e.k == "ret"][-1]
            c.check("read", fn, S(ret.val) == "*(%s)[arg0]" % want, fn, ret.loc, "%s returns %s" % (fn, S(ret.val)), q.trace())
    f, ps = walk(p, "rt_find_rtype")
    for q in ps:
        ret = [e for e in q.ev if e.k == "ret"][-1]
        v = U(ret.val)
        c.check("read", "rt_find_rtype", v[0] == "call" and "map_get" in v[1] and v[3:] == (("g", "rt_rtype_map"), ("a", 0)), "rt_find_rtype", ret.loc, "rt_find_rtype returns %s" % show(v), q.trace())
    # pointers are set before the tables are used, functions before call sites, types before globals
    f, ps = walk(p, "runtime_deserialize_init", ("runtime/memory.h",))
    for q in ps:
        pos = {}
        for k, e in enumerate(q.ev):
            if e.k == "call" and isinstance(e.name, str) and e.name.endswith("_deserialize"):
                pos.setdefault(e.name, k)
            if e.k == "store" and U(e.addr)[0] == "g":
                pos.setdefault("=" + U(e.addr)[1], k)
                if U(e.addr)[1] in ("rt_data_ptr", "rt_strtable_ptr"):
                    want = {"rt_data_ptr": "rt_data", "rt_strtable_ptr": "rt_strtable_data"}[U(e.addr)[1]]
                    c.check("read", U(e.addr)[1], U(e.val) == ("g", want), U(e.addr)[1], e.loc, "%s is set to %s" % (U(e.addr)[1], S(e.val)), q.trace())
        for a, b in (("fndefs_deserialize", "callers_deserialize"), ("=rt_strtable_ptr", "rtypes_deserialize"), ("rtypes_deserialize", "symdefs_deserialize"), ("=rt_data_ptr", "symdefs_deserialize")):
            c.check("order", "runtime." + a + "<" + b, a in pos and b in pos and pos[a] < pos[b], a + "<" + b, f.loc, "runtime_deserialize_init does not run %s before %s" % (a.lstrip("="), b), q.trace())
    for fn, ptr, data in (("fndefs_deserialize", "rt_fndef_ptr", "rt_fndef_data"), ("callers_deserialize", "rt_caller_ptr", "rt_caller_data"), ("symdefs_deserialize", "rt_symdef_ptr", "rt_symdef_data")):
        f, ps = walk(p, fn)
        for q in ps:
            st = [e for e in q.ev if e.k == "store" and U(e.addr) == ("g", ptr)]
            c.check("read", ptr, len(st) == 1 and U(st[0].val) == ("g", data), ptr, st[0].loc if st else f.loc, "%s is not set to the table" % ptr, q.trace())


def loops(c, p):
    """a table is read over its whole count"""
    want = {"callers_deserialize": "rt_caller_count", "rtypes_deserialize": "rt_rtype_count", "symdefs_deserialize": "rt_symdef_count", "register_const_str_pool": "rt_symdef_count", "find_fn": "rt_fndef_count"}
    for fn, cnt in want.items():
        f = p.need(fn)
        ok = False
        for i in f.insts():
            if i.op == "icmp":
                a, b = strip_all(unversion(static_expr(f, i.ops[0]))), strip_all(unversion(static_expr(f, i.ops[1])))
                if a[0] == "phi" and b == ("ld", ("g", cnt), 0) and i.x in ("ult", "slt", "ne"):
                    ph = f.byid.get(a[2])
                    ok = ok or any(strip_all(static_expr(f, v)) == ("c", 0) for _, v in ph.ops)
        c.check("count", fn, ok, fn, f.loc, "%s does not go over records 0 to %s" % (fn, cnt))


def body(c):
    c.rule("layout", "records have the same fields at the same offsets in compiler, runtime and standard library", 6)
    c.rule("table", "each table symbol is defined on a section holding exactly that table, its size and its count", 40)
    c.rule("order", "what a table refers to is complete when it is written, and set up before it is read", 10)
    c.rule("record", "each record is written to its own slot from the object it describes, and its address relocated there", 50)
    c.rule("caller", "a recorded call site has its function, return offset, position and target name", 20)
    c.rule("buffer", "an offset handed out by the string and data buffers is where the data was copied", 20)
    c.rule("serialize", "tables are copied whole, with call sites naming functions by index", 4)
    c.rule("type", "a type record agrees with the element data and bitmap it points to", 60)
    c.rule("read", "the runtime interprets indices, offsets and hashes as they were written", 15)
    c.rule("count", "the runtime reads every record", 5)
    cp = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    rp = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    c.section(layout, c, cp, rp)
    for s in (tables, records, coff, callers, buffers, serialize, push, types):
        c.section(s, c, cp)
    for s in (reading, loops):
        c.section(s, c, rp)


main("R23", TECH, body)
