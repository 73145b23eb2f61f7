"""R16: malformed linker input is reported, never read or indexed out of bounds"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import *
from util import *
from bounds import *
from bounds import sub as lsub

TECH = "dominating-condition facts and linear entailment at every indexed access and byte read of the input parsers, lifted to callers"
FILES = ("src/ld/ld_elf_input.c", "src/ld/ld_elf_archive.c", "src/ld/ld_input.c", "src/ld/ld_elf_merge.c", "src/ld/ld_elf_property.c", "src/ld/ld_elf_eh_frame.c",
         "src/ld/ld_elf_cie.c", "src/ld/ld_elf_debug.c", "src/ld/ld_tapi.c", "src/ld/ld_elf_script.c", "src/ld/ld_elf_riscv_uleb.c", "src/ld/ld_coff_input.c", "src/ld/ld_elf_zlib.c")
READ = {"ld_elf_read_u16": 2, "ld_elf_read_u32": 4, "ld_elf_read_u64": 8, "ld_read_u32": 4, "ld_read_u64": 8, "ld_read_u16": 2, "read_u16": 2, "read_u32": 4, "read_u64": 8}
COPY = {"memcpy": (1, 2), "memcmp": (0, 2), "memchr": (0, 2), "llvm.memcpy.p0.p0.i64": (1, 2), "strncmp": (0, 2)}


def pairs(p):
    """array member -> count member, and byte buffer member -> size member, by their names"""
    arr, buf = {}, {}
    for sname, st in p.structs.items():
        names = [m[0] for m in st["m"]]
        for n in names:
            if n.endswith("_count"):
                b = n[:-6]
                for a in (b + "s", b, b[:-1] + "ies" if b.endswith("y") else b + "es"):
                    if a in names:
                        arr[(sname, a)] = n
            for a, z in ((n, n + "_size"), ("bytes", "size"), ("data", "size")):
                if n == a and z in names:
                    buf.setdefault((sname, a), z)
    return arr, buf


class Sites:
    def __init__(s, c, p):
        s.c, s.p, s.b = c, p, Bounds(p)
        s.st = Stores(s.b)
        s.arr, s.buf = pairs(p)
        s.extent = {}
        s.undecided = {}

    # what is known where an instruction executes
    def known(s, fn, ins):
        return s.b.facts(fn, ins.bb) + s.st.facts(fn, ins)

    def needs(s, fn, depth=0):
        """constant number of bytes a function reads through each pointer argument"""
        if fn in s.extent:
            return s.extent[fn]
        s.extent[fn] = {}
        m = {}
        for i, ptr, n in s.reads(fn, depth + 1):
            l, k = lin(ptr)
            kk = s.b.const(n) if isinstance(n, list) else n
            if isinstance(kk, int) and len(l) == 1:
                (t, v), = l.items()
                if t[0] == "a" and v == 1 and k >= 0:
                    m[t[1]] = max(m.get(t[1], 0), k + kk)
        s.extent[fn] = m
        return m

    def reads(s, fn, depth=0):
        """(instruction, pointer expression, length): bytes read"""
        for i in fn.insts():
            if i.bb not in fn.dom:
                continue
            if i.op == "call" and isinstance(i.callee, str):
                n = i.callee
                if n in READ:
                    yield i, s.b.ex(fn, i.ops[0]), READ[n]
                elif n in COPY:
                    a, z = COPY[n]
                    yield i, s.b.ex(fn, i.ops[a]), s.b.const(i.ops[z]) if s.b.const(i.ops[z]) is not None else ("e", s.b.ex(fn, i.ops[z]))
                elif depth < 4:
                    g = s.p.resolve(fn.tu, n)
                    if g is not None and g.blocks and g.file.startswith("src/ld") and depth == 0:
                        for a in range(min(len(g.argt), len(i.ops))):
                            z = size_arg(g, a)
                            if z is not None and z < len(i.ops):
                                yield i, s.b.ex(fn, i.ops[a]), ("e", s.b.ex(fn, i.ops[z]))
                    if g is not None and g.blocks and g.file.startswith("src/ld") and not sized(g):
                        for a, k in s.needs(g, depth + 1).items():
                            if a < len(i.ops):
                                yield i, s.b.ex(fn, i.ops[a]), k
            elif i.op == "load" and i.ty == "i8":
                a = s.b.ex(fn, i.ops[0])
                if a[0] == "idx" or a[0] == "ld":
                    yield i, a, 1
            elif i.op == "store" and depth == 0 and isinstance(i.ops[0], str) and i.ops[0][0] == "%":
                v = s.b.ex(fn, i.ops[0])
                if v[0] == "idx":
                    d = s.b.ex(fn, i.ops[1])
                    n = 0
                    if d[0] == "fld" and d[3] == "data" and any(m[0] == "header" for m in s.p.structs[d[2]]["m"]):
                        h = next(m for m in s.p.structs[d[2]]["m"] if m[0] == "header")[3]
                        z = [m[0] for m in s.p.structs.get(h, {"m": []})["m"] if m[0] in ("size", "sh_size")]
                        if z:
                            n = ("e", ("ld", ("fld", ("fld", d[1], d[2], "header"), h, z[0]), 0))
                    yield i, v, n

    def bound(s, fn, ptr):
        """[(goal base, bound)]: the region a pointer lies in"""
        l, k = lin(ptr)
        out = []
        for t, v in l.items():
            if v != 1:
                continue
            if t[0] == "ld" and t[1][0] == "fld":
                key = (t[1][2], t[1][3])
                if key in s.buf:
                    out.append((t, ("ld", ("fld", t[1][1], t[1][2], s.buf[key]), 0)))
                    names = [m[0] for m in s.p.structs[t[1][2]]["m"]]
                    if t[1][3] == "data" and "header" in names:
                        hs = next(m for m in s.p.structs[t[1][2]]["m"] if m[0] == "header")
                        out.append((t, ("ld", ("fld", ("fld", t[1][1], t[1][2], "header"), header_type(s.p, fn, t), "sh_size"), 0)))
            elif t[0] == "call" and t[1].endswith("view_range") and len(t) >= 7:
                out.append((t, t[6]))
            elif t[0] == "a":
                z = size_arg(fn, t[1])
                if z is not None:
                    out.append((t, ("a", z)))
        return out

    def prove(s, fn, ins, goal, depth=0, at=None, seen=()):
        """goal <= 0 holds whenever ins executes"""
        facts = (s.b.facts(fn, at) if at is not None else s.known(fn, ins))
        if s.b.prove(goal, facts):
            return True
        # a value chosen earlier: every possible choice must satisfy the goal
        for t, v in goal[0].items():
            if v > 0 and t[0] == "phi" and t not in seen and len(seen) < 6:
                i = fn.byid.get(t[2])
                if i is None:
                    continue
                ok = True
                for blk, x in i.ops:
                    if blk not in fn.dom:
                        continue
                    e = s.b.ex(fn, x)
                    if any(pr == "ne" and a == t and b == e for pr, a, b in facts):
                        continue
                    if e == t:
                        continue
                    g = lsub(goal, ({t: 1}, 0), v)
                    le = lin(e)
                    g = lsub(g, le, -v)
                    if le[0] == {t: 1} and le[1] * v <= 0:
                        continue
                    if t in le[0]:
                        ok = False
                        break
                    ff = s.b.facts(fn, blk) + s.b.edge(fn, blk, i.bb) + [f for f in facts if not mentions(f, t)]
                    ff += s.st.facts(fn, fn.blocks[blk][-1])
                    if e[0] == "phi" and e in seen:
                        continue
                    if s.b.prove(g, ff):
                        continue
                    if any(x2[0] == "phi" for x2 in g[0]) and s.prove(fn, fn.blocks[blk][-1], g, depth, seen=seen + (t,)):
                        continue
                    ok = False
                    break
                if ok:
                    return True
        # depends only on the arguments: the callers must establish it
        if depth < 3 and not any(local(t) for t in goal[0]) and fn.name not in seen:
            cs = list(s.p.callers(fn.name))
            if cs and fn.internal and not s.taken(fn):
                for call in cs:
                    g = call.fn
                    args = [s.b.ex(g, o) for o in call.ops[:len(fn.argt)]]
                    l = ({}, goal[1])
                    for t, v in goal[0].items():
                        l = lsub(l, lin(subst(t, args)), -v)
                    if not s.prove(g, call, l, depth + 1, seen=seen + (fn.name,)):
                        return False
                return True
        return False

    def unwrapped(s, fn, ins, e):
        return all(s.prove(fn, ins, lsub(lin(y), lin(x))) for x, y in differences(e))

    def taken(s, fn):
        return False


def mentions(f, t):
    return any(x == t for e in f[1:] for x in subexprs(e) if isinstance(x, tuple))


def header_type(p, fn, t):
    return "ld_elf64_shdr_t"


def size_arg(fn, i):
    for j in (i + 1, i + 2):
        if j < len(fn.argt) and fn.argt[j] == "i64" and any(w in (fn.argn[j] or "") for w in ("size", "length", "len")) and fn.argt[i] == "ptr":
            return j
        if j < len(fn.argt) and fn.argt[j] != "i64":
            return None
    return None


def sized(g):
    return any(size_arg(g, i) is not None for i in range(len(g.argt)))


def run(c, p, report):
    s = Sites(c, p)
    for fn in p.unique():
        if fn.file not in FILES:
            continue
        # indexed tables
        for i in fn.insts():
            if i.op != "gep" or i.bb not in fn.dom:
                continue
            e = s.b.ex(fn, i.id)
            while e[0] == "fld":
                e = e[1]
            if e[0] != "idx" or e[2][0] == "c":
                continue
            t = e[1]
            if t[0] == "ld" and t[1][0] == "fld" and (t[1][2], t[1][3]) in s.arr:
                cnt = ("ld", ("fld", t[1][1], t[1][2], s.arr[(t[1][2], t[1][3])]), 0)
                goal = lsub(lin(e[2]), lin(cnt))
                ok = s.prove(fn, i, (goal[0], goal[1] + 1)) and s.unwrapped(fn, i, e[2])
                report(fn, i, "index", t[1][3], ok, e[2], cnt, t)
        for i, ptr, n in s.reads(fn):
            bs = s.bound(fn, ptr)
            if not bs:
                continue
            ok = False
            for t, bd in bs:
                g = lsub(lin(ptr), ({t: 1}, 0))
                g = lsub(g, lin(n[1]) if isinstance(n, tuple) else ({}, n), -1)
                g = lsub(g, lin(bd))
                if s.prove(fn, i, g) and s.unwrapped(fn, i, ptr) and (not isinstance(n, tuple) or s.unwrapped(fn, i, n[1])):
                    ok = True
                    break
            report(fn, i, "read", "", ok, ptr, bs[0][1], bs[0][0], n)


# accesses this analysis has no proof for on the reference tree: (function, kind, table) -> distinct index forms.
# They rest on facts outside its reach: contents of tables validated when they were filled, products of two
# variables, lengths re-read in a second pass over bytes checked in the first, lexer cursors.
UNDECIDED = {
    ("ld_coff_decimal", "read", "text"): 2,
    ("ld_coff_load_input", "read", "bytes"): 1,
    ("ld_coff_parse_archive", "read", "bytes"): 6,
    ("ld_coff_parse_directives", "read", "data"): 1,
    ("ld_coff_parse_import", "read", "bytes"): 1,
    ("ld_coff_parse_member", "read", "bytes"): 2,
    ("ld_coff_parse_object", "index", "symbols"): 1,
    ("ld_coff_parse_object", "read", "bytes"): 2,
    ("ld_elf_archive_decimal", "read", "field"): 2,
    ("ld_elf_archive_has_prefix", "read", "field"): 1,
    ("ld_elf_archive_long_name", "read", "gnu_name_table"): 1,
    ("ld_elf_archive_name_equals", "read", "field"): 1,
    ("ld_elf_merge_add_section", "read", "data"): 1,
    ("ld_elf_parse_eh_frame_section", "index", "eh_records"): 1,
    ("ld_elf_parse_eh_frame_section", "index", "symbols"): 2,
    ("ld_elf_parse_eh_frame_section", "read", "data"): 1,
    ("ld_elf_parse_groups", "index", "groups"): 2,
    ("ld_elf_parse_groups", "index", "sections"): 1,
    ("ld_elf_parse_groups", "read", "data"): 1,
    ("ld_elf_parse_relocations", "read", "ld_elf_view_range"): 2,
    ("ld_elf_parse_symbols", "read", "data"): 1,
    ("ld_elf_riscv_uleb_field_size", "read", "place"): 1,
    ("ld_elf_script_copy_token", "read", "data"): 2,
    ("ld_elf_script_lexer_next", "read", "data"): 1,
    ("ld_elf_script_token_equal", "read", "data"): 1,
    ("ld_elf_zlib_write_match", "read", "output"): 1,
    ("ld_parse_archive", "read", "bytes"): 3,
    ("ld_parse_dylib", "read", "bytes"): 9,
    ("ld_parse_export_node", "read", "data"): 1,
    ("ld_parse_export_node", "read", "name"): 1,
    ("ld_parse_fat", "read", "bytes"): 6,
    ("ld_tapi_symbol_push", "index", "symbols"): 1,
    ("merge_add_entity", "read", "data"): 1,
}


# functions of the reference tree; one that is not among them was split out of its callers and inherits their entries
REFERENCE = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "ld_functions.txt")).read().split())


def form(e):
    """an index expression without the names of temporaries"""
    return re.sub(r"'%\d+'", "%", show(e))


def base_name(fn, t):
    if t[0] == "ld" and t[1][0] == "fld":
        return t[1][3]
    if t[0] == "call":
        return t[1]
    if t[0] == "a":
        return fn.argn[t[1]] or "arg%d" % t[1]
    return t[0]


def allowed(p, fn, k, depth=0):
    """the listed number for a function, or for the functions it was split out of"""
    if (fn.name,) + k in UNDECIDED:
        return UNDECIDED[(fn.name,) + k]
    cs = {c.fn for c in p.callers(fn.name)} - {fn}
    if depth < 3 and fn.internal and cs and fn.name not in REFERENCE:
        return max(allowed(p, g, k, depth + 1) for g in cs)
    return 0


def sites(c, p):
    left = {}

    def report(fn, ins, kind, base, ok, e, bound, t, n=1):
        if kind == "index" and any(x == bound for x in lin(e)[0]) and lin(e)[0][bound] > 0:
            return  # the slot an append fills
        k = (kind, base_name(fn, t))
        c.unit(fn.name)
        if ok:
            c.ok(kind, "%s:%s %s %s[%s]" % (fn.file, fn.name, ins.line, k[1], form(e)[:60]))
        else:
            left.setdefault((fn, k), {}).setdefault(show(e) + " +" + (str(n) if isinstance(n, int) else show(n[1])), (ins, e, bound))
    run(c, p, report)
    for (fn, k), forms in left.items():
        n = allowed(p, fn, k)
        if DUMP:
            print('    ("%s", "%s", "%s"): %d,' % ((fn.name,) + k + (len(forms),)))
        if len(forms) <= n:
            for f in forms:
                c.notes.append("not decided: %s %s %s[%s]" % (fn.name, k[0], k[1], f[:80]))
            continue
        for f, (ins, e, bound) in sorted(forms.items()):
            c.bad(k[0], "%s.%s.%s" % (fn.name, k[1], form(e)[:60]), ins.loc,
                  "%s: nothing on the way to this access bounds %s[%s] by %s" % (fn.name, k[1], show(e)[:120], show(bound)[:80]))


def helpers(c, p):
    b = Bounds(p)
    n = 0
    for fn in p.unique():
        if not fn.file.startswith("src/ld/"):
            continue
        # a view of a range exists only inside the buffer
        if fn.name.endswith("view_range"):
            n += 1
            a = fn.argn
            for i in fn.insts():
                if i.op == "gep" and i.bb in fn.dom and b.ex(fn, i.id)[0] == "idx":
                    g = lsub(lin(b.ex(fn, i.id)), ({("a", 0): 1}, 0))
                    g = lsub(lsub(g, lin(("a", 3)), -1), lin(("a", 1)))
                    c.check("view", fn.name, b.prove(g, b.facts(fn, i.bb)), fn.name, i.loc, "%s returns a pointer to a range it has not shown to lie inside the buffer" % fn.name)
        # products handed back through a pointer are overflow checked
        for i in fn.insts():
            if i.op == "store" and i.bb in fn.dom:
                v, a = b.sx(fn, i.ops[0]), b.sx(fn, i.ops[1])
                if a[0] == "a" and v[0] == "bin" and v[1] == "mul" and v[2][0] == "a" == v[3][0]:
                    for q in Walker(p, loops=1).paths(fn):
                        st = [e for e in q.ev if e.k == "store" and e.ins is i]
                        if not st or q.dead:
                            continue
                        ok = False
                        for pr, l, r, ev in known(q, q.index(st[0])):
                            l, r = strip(l), strip(r)
                            if pr == "eq" and l in (v[2], v[3]) and r == ("c", 0):
                                ok = True
                            for x, y, pp in ((l, r, ("ule", "ult")), (r, l, ("uge", "ugt"))):
                                if pr in pp and x in (v[2], v[3]) and y[0] == "bin" and y[1] == "udiv" and y[2][0] == "c" and y[2][1] in (-1, (1 << 64) - 1) and y[3] in (v[2], v[3]) and y[3] != x:
                                    ok = True
                        c.check("product", fn.name, ok, fn.name, i.loc, "%s hands back a product that may have wrapped" % fn.name, q.trace())
    c.need(n, "no view_range function")


def tested(c, p):
    """a view or a terminator that may not exist is tested before it is used"""
    for fn in p.unique():
        if fn.file not in FILES:
            continue
        b = Bounds(p)
        for i in fn.insts():
            if i.op != "call" or not isinstance(i.callee, str) or i.bb not in fn.dom:
                continue
            v = i.callee.endswith("view_range")
            if not v and not (i.callee == "memchr" and Bounds.const(i.ops[1]) == 0):
                continue
            tests = [x for x in fn.insts() if x.op == "icmp" and x.x in ("eq", "ne") and reaches(fn, x.ops[0], i.id) and x.ops[1] in (["null"], ["c", 0, 64], "null")
                     or x.op == "icmp" and x.x in ("eq", "ne") and reaches(fn, x.ops[0], i.id) and isnull(b, fn, x.ops[1])]
            ret = [x for x in fn.insts() if x.op == "ret" and x.ops and x.ops[0] == i.id]
            rule = "tested"
            if tests or ret:
                c.ok(rule, "%s:%s %s" % (fn.file, fn.name, i.line))
                continue
            if v:
                off, ln = b.ex(fn, i.ops[2]), b.ex(fn, i.ops[3])
                g = lsub(lsub(lin(off), lin(ln), -1), lin(b.ex(fn, i.ops[1])))
                s = Sites(c, p)
                if s.prove(fn, i, g):
                    c.ok(rule, "%s:%s %s" % (fn.file, fn.name, i.line))
                    continue
            c.bad(rule, "%s.%s" % (fn.name, i.callee), i.loc, "%s: the result of %s is used without a test that it exists" % (fn.name, i.callee))


def isnull(b, fn, o):
    try:
        e = b.sx(fn, o)
    except Exception:
        return False
    return e in (("c", 0), ("null",)) or is_null(e)


def reaches(fn, o, target, depth=0):
    if o == target:
        return True
    i = fn.byid.get(o) if isinstance(o, str) else None
    if i is None or depth > 3:
        return False
    if i.op == "load":
        ev = SEv(fn)
        a = ev.op(i.ops[0])
        return any(x.op == "store" and x.ops[0] == target and ev.op(x.ops[1]) == a for x in fn.insts())
    if i.op == "phi":
        return any(reaches(fn, v, target, depth + 1) for _, v in i.ops)
    return False


DUMP = os.environ.get("R16_DUMP")


def body(c):
    c.rule("index", "an index taken from the input is below the length of the table it selects from", 500)
    c.rule("read", "bytes read from the input lie inside the buffer", 120)
    c.rule("view", "a view of a range of the input exists only inside the buffer", 1)
    c.rule("product", "a size computed as a product is checked for overflow", 1)
    c.rule("tested", "a view or string terminator that may be missing is tested before use", 15)
    p = Program("compiler", lambda f: f.startswith("src/ld/"))
    c.section(sites, c, p)
    c.section(helpers, c, p)
    c.section(tested, c, p)


main("R16", TECH, body)
