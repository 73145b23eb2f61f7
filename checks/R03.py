"""R03: compiled code and native runtime agree on every call's arguments and result."""
import os, re, subprocess, sys, tempfile, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from lir import *
from natdecl import *

TECH = ("cross-language signature and layout comparison: bindings parsed from the standard library against the compiled prototypes of the native functions (debug info, library headers); "
        "argument lists emitted by the code generator against the same prototypes")
CLANG = "/usr/lib/llvm-18/bin/clang"
HEAD = """stdio.h stdlib.h string.h strings.h ctype.h math.h time.h sys/time.h unistd.h fcntl.h errno.h signal.h dirent.h pthread.h arpa/inet.h netdb.h sys/types.h sys/stat.h
sys/socket.h sys/wait.h sys/mman.h sys/ioctl.h sys/random.h sys/uio.h grp.h sys/mount.h inttypes.h sys/prctl.h sys/signalfd.h sys/resource.h sys/utsname.h sys/file.h poll.h sys/select.h
sys/epoll.h sys/eventfd.h termios.h sched.h pwd.h utime.h sys/sendfile.h sys/xattr.h locale.h wchar.h setjmp.h stdarg.h""".split()
# native struct seen by both sides although no binding names it
PAIRS = [(("builtin/coroutine", "future_t"), "n_future_t"), (("reflect/reflect", "rtype_t"), "rtype_t"), (("reflect/reflect", "rtype_struct_t"), "rtype_field_t"), (("co/mutex", "mutex_t"), "rt_mutex_t"),
         (("co/types", "linkco_t"), "linkco_t"), (("co/types", "linkco_list_t"), "rt_linkco_list_t"), (("http/http", "server_t"), "n_http_server_t"), (("net/udp", "addr_t"), "n_udp_addr_t"),
         (("net/tcp", "conn_t"), "n_tcp_conn_t"), (("net/tcp", "server_t"), "n_tcp_server_t"), (("process/process", "command_t"), "command_t"), (("fs/fs", "stat_t"), "uv_stat_t")]


def body(c):
    c.rule("bound", "every name bound by the standard library is a function of the runtime or of a library it is linked with", 300)
    c.rule("count", "a binding passes as many arguments as the native function takes", 300)
    c.rule("kind", "each argument and the result of a binding has the class and width the native function is defined with", 800)
    c.rule("order", "arguments both sides name alike are at the same position", 40)
    c.rule("layout", "a structure shared by both sides has the same fields at the same offsets", 8)
    c.rule("implicit", "each implicit runtime call passes as many arguments as the native function takes", 60)
    c.rule("operands", "each operand of an implicit runtime call is as wide as the parameter it is passed to, and of the same class", 40)
    c.rule("result", "the result of an implicit runtime call is taken with the width the native function returns", 20)
    rt = Program("runtime", lambda f: f.startswith(("runtime/", "utils/")))
    by = {}
    for g in rt.unique():
        by.setdefault(g.name, g)
    c.section(bindings, c, rt, by)
    c.section(implicit, c, rt, by)


# ---------------------------------------------------------------- prototypes
def cls(ct, it):
    """class and width of a native type given as [C type, IR type]"""
    if it == "ptr":
        return ("p", 8)
    if it == "void":
        return ("v", 0)
    m = re.match(r"^(bool|[iu]|f|struct|union|arr)(\d+)$", it)
    if not m:
        return None
    k = {"bool": "i", "i": "i", "u": "i", "f": "f"}.get(m.group(1), "s")
    return (k, int(m.group(2)))


def irty(t):
    t = t.strip()
    if t.startswith("void"):
        return ("v", 0)
    if " sret(" in t or " byval(" in t:
        return ("S", 0)
    w = t.split()[0]
    if w == "ptr":
        return ("p", 8)
    if w == "float":
        return ("f", 4)
    if w == "double":
        return ("f", 8)
    m = re.match(r"^i(\d+)$", w)
    if m:
        return ("i", max(1, int(m.group(1)) // 8))
    return ("S", 0)


def library(names, c):
    """prototypes of library functions, from the headers: {name: (result, params, variadic)}; names without a declaration are absent"""
    d = tempfile.mkdtemp(prefix="r03")
    try:
        inc = [h for h in HEAD if os.path.exists("/usr/include/x86_64-linux-musl/" + h)]
        mb = [os.path.basename(f) for f in sorted(glob.glob(REPO + "/include/mbedtls/*.h"))]
        mb = ["mbedtls/" + b for b in mb if b not in ("check_config.h", "psa_util.h", "compat-2.x.h") and not b.startswith("config_")]
        text = "#define _GNU_SOURCE\n" + "".join("#include <%s>\n" % h for h in inc + mb + ["uv.h"])
        base = text.count("\n")
        names = list(names)
        src, out = d + "/s.c", d + "/s.ll"
        for _ in range(6):
            open(src, "w").write(text + "".join("void *v_%s = (void*)%s;\n" % (n, n) for n in names))
            r = subprocess.run([CLANG, "-S", "-emit-llvm", "-O0", "-w", "-ferror-limit=0", "-nostdinc", "-isystem", glob.glob("/usr/lib/llvm-18/lib/clang/*/include")[0],
                                "-isystem", "/usr/include/x86_64-linux-musl", "-I", REPO + "/include", "-o", out, src], capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad = {int(m.group(1)) - base - 1 for m in re.finditer(r"s\.c:(\d+):\d+: (?:fatal )?error", r.stderr)}
            if any(b < 0 for b in bad) or not bad:
                raise AnalysisError("library headers do not compile: " + r.stderr[:300])
            names = [n for i, n in enumerate(names) if i not in bad]
        res = {}
        for l in open(out):
            m = re.match(r"^declare (?:dso_local )?(.*?) @(\w+)\((.*?)\)(?: #\d+)?$", l.rstrip())
            if not m:
                continue
            ret = re.sub(r"\b(noundef|signext|zeroext|noalias|nonnull)\b", "", m.group(1))
            ps, cur, dep = [], "", 0
            for ch in m.group(3):
                dep += ch in "({<["
                dep -= ch in ")}>]"
                if ch == "," and dep == 0:
                    ps.append(cur)
                    cur = ""
                else:
                    cur += ch
            if cur.strip():
                ps.append(cur)
            va = bool(ps) and ps[-1].strip() == "..."
            ps = [p for p in ps if p.strip() != "..."]
            r = irty(ret)
            if ps and " sret(" in ps[0]:
                r, ps = ("S", 0), ps[1:]
            res[m.group(2)] = (r, [irty(p) for p in ps], va)
        return res
    finally:
        for f in (d + "/s.c", d + "/s.ll"):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(d)


def archives():
    """symbols defined by the libraries a program is linked with, the runtime itself excluded"""
    out = set()
    for f in sorted(glob.glob(REPO + "/lib/linux_amd64/lib*.a")):
        own = os.path.basename(f) == "libruntime.a"
        r = subprocess.run(["nm", "-g", "--defined-only", f], capture_output=True, text=True)
        for l in r.stdout.split("\n"):
            w = l.split()
            if len(w) == 3 and (not own or w[2].startswith(("mbedtls_", "uv_", "psa_"))):
                out.add(w[2])
    return out


def agree(n, k):
    """nature (class, size) against native (class, size)"""
    if k is None or n is None:
        return True
    nc, ns = n[0], n[1]
    kc, ks = k[0], k[1]
    if kc == "S":
        return nc == "s"
    if nc == "v" or kc == "v":
        return nc == kc or nc == "v" and kc in "ipf"  # a scalar result may be ignored
    if nc == "s" and kc == "i" and ns == ks <= 8:
        return True  # a small structure travels in a register
    if nc == "s" or kc == "s":
        return nc == kc and ns == ks
    if nc == "f" or kc == "f":
        return nc == kc and ns == ks
    return ns == ks  # integers and pointers of one width are passed alike


def bindings(c, rt, by):
    T = Types()
    structs = dict(Program("compiler", lambda f: f.startswith(("src/", "utils/"))).structs)
    structs.update({k: v for k, v in rt.structs.items() if v["m"]})
    decls = linkids()
    c.need(len(decls) >= 300, "bindings of the standard library not found")
    other = {d.name for d in decls if d.name not in by}
    lib = library(sorted(other), c)
    syms = archives()
    c.need(len(lib) >= 200 and len(syms) > 500, "library prototypes not found")
    pairs = {}
    for d in decls:
        mod = module(d.file)
        loc = "%s:%d" % (d.file, d.line)
        key = "%s:%s" % (d.file, d.name)
        c.unit(d.file)
        g = by.get(d.name)
        c.check("bound", key, g is not None or d.name in lib or d.name in syms, key, loc, "%s is bound by the standard library but defined nowhere" % d.name)
        sg = signature(d)
        if sg is None:
            raise AnalysisError("cannot read the declaration at " + loc)
        ps, r, va = sg
        if g is not None:
            want = [cls(*x) for x in g.sig]
            ret, params, cva = want[0], want[1:], g.va
        elif d.name in lib:
            ret, params, cva = lib[d.name]
        else:
            continue
        rest = "..." in d.sig and not va
        ok = len(ps) == len(params) or cva and len(ps) >= len(params)
        c.check("count", key, ok, key, loc, "%s is declared with %d arguments but takes %d" % (d.name, len(ps), len(params)))
        if g is not None and g.argn:
            cn = list(g.argn)[-len(params):] if params else []
            dn = argnames(d)
            for i, x in enumerate(dn):
                if x in cn and i < len(cn):
                    j = cn.index(x)
                    c.check("order", "%s %s" % (key, x), j == i or cn[i] not in dn or dn.index(cn[i]) == i, "%s:order:%s" % (key, x), loc,
                            "%s passes %s as argument %d, the native function takes it as argument %d" % (d.name, x, i + 1, j + 1))
        for i, (a, k) in enumerate(zip(ps, params)):
            n = T.lay(a, mod)
            if n is None:
                continue
            c.check("kind", "%s argument %d" % (key, i + 1), agree(n, k), "%s:%d" % (key, i + 1), loc,
                    "argument %d of %s is passed as %s (%s of %d bytes) but taken as %s of %d bytes" % (i + 1, d.name, a, name_of(n), n[1], name_of(k), k[1]))
            if g is not None:
                st = T.struct(a, mod)
                ct = re.sub(r"\*+$", "", g.sig[i + 1][0]).replace("const ", "").strip()
                if st and ct in structs:
                    pairs.setdefault((st, ct), loc)
        n = T.lay(r, mod)
        if n is not None:
            c.check("kind", key + " result", agree(n, ret), key + ":result", loc,
                    "the result of %s is taken as %s (%s of %d bytes) but returned as %s of %d bytes" % (d.name, r, name_of(n), n[1], name_of(ret), ret[1]))
            if g is not None:
                st = T.struct(r, mod)
                ct = re.sub(r"\*+$", "", g.sig[0][0]).strip()
                if st and ct in structs:
                    pairs.setdefault((st, ct), loc)
    returned = {(ct) for g in by.values() for ct in [re.sub(r"\*+$", "", g.sig[0][0])] if g.sig and g.sig[0][1] == "ptr"}
    for st, ct in PAIRS:
        c.need(st in T.t, "type %s.%s not found" % st)
        c.need(ct in structs, "structure %s not found" % ct)
        pairs.setdefault((st, ct), "%s:%d" % T.t[st][1:])
    for (st, ct), loc in sorted(pairs.items()):
        fl = T.fields(T.t[st][0], st[0])
        if fl is None:
            c.notes.append("layout of %s.%s not understood" % st)
            continue
        c.unit(ct)
        cm = structs[ct]["m"]
        where = "%s:%d" % T.t[st][1:]
        for f in fl:
            m = next((m for m in cm if m[1] == f[1]), None)
            ok = m is not None and m[2] == f[2] and (cls(m[3], m[4]) or ("?",))[0] in ("?", f[3], "p" if f[3] == "i" else "i" if f[3] == "p" else f[3], "s")
            # a run of native fields may be kept opaque in one array
            if not ok and f[3] == "s" and (f[5].startswith("[") or f[5].endswith("?") or "|" in f[5]):
                ok = any(x[1] == f[1] for x in cm) and (any(x[1] == f[1] + f[2] for x in cm) or f[1] + f[2] >= structs[ct]["size"])
            c.check("layout", "%s.%s.%s" % (st + (f[0],)), ok, "%s.%s.%s" % (st + (f[0],)), where,
                    "field %s of %s.%s is at offset %d with %d bytes, natively %s" % (f[0], st[0], st[1], f[1], f[2], "%s at offset %d has %d bytes" % (m[0], m[1], m[2]) if m else "no field starts there (%s)" % ct))
        size = T.lay(T.t[st][0], st[0])[1]
        cs = structs[ct]["size"]
        c.check("layout", "%s.%s size" % st, size >= cs or ct in returned, "%s.%s:size" % st, where, "%s.%s has %d bytes but the native %s has %d" % (st + (size, ct, cs)))


def name_of(k):
    return {"i": "integer", "f": "float", "p": "pointer", "s": "structure", "S": "structure", "v": "nothing"}.get(k[0], k[0])


# ---------------------------------------------------------------- implicit calls
def kinds_table(p):
    """size and class of the basic kinds"""
    t = {}
    for k, v in (("TYPE_INT", ("i", 8)), ("TYPE_UINT", ("i", 8)), ("TYPE_INT64", ("i", 8)), ("TYPE_UINT64", ("i", 8)), ("TYPE_INT32", ("i", 4)), ("TYPE_UINT32", ("i", 4)), ("TYPE_INT16", ("i", 2)),
                 ("TYPE_UINT16", ("i", 2)), ("TYPE_INT8", ("i", 1)), ("TYPE_UINT8", ("i", 1)), ("TYPE_BOOL", ("i", 1)), ("TYPE_FLOAT64", ("f", 8)), ("TYPE_FLOAT", ("f", 8)), ("TYPE_FLOAT32", ("f", 4)),
                 ("TYPE_ANYPTR", ("p", 8)), ("TYPE_PTR", ("p", 8)), ("TYPE_GC_ENV", ("p", 8)), ("TYPE_STRING", ("s", 48))):
        try:
            t[p.enum(k)] = v
        except Exception:
            pass
    return t


def implicit(c, rt, by):
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    KT = kinds_table(p)
    n = 0
    names = {}

    def operand(g, o):
        """class and width of an operand built by a known maker"""
        e = strip_casts(static_expr(g, o))
        if e[0] != "call":
            return None
        if e[1] == "int_operand":
            return ("i", 8)
        if e[1] == "bool_operand":
            return ("i", 1)
        if e[1] in ("string_operand", "lea_operand_pointer", "raw_string_operand"):
            return ("p", 8)
        if e[1] in ("temp_var_operand", "temp_var_operand_with_alloc", "linear_temp_var_operand", "lower_temp_var_operand"):
            return kind(g, e)
        m = re.match(r"^u?int(8|16|32|64)_operand$", e[1])
        if m:
            return ("i", int(m.group(1)) // 8)
        if e[1] == "float_operand":
            return ("f", 8)
        return None

    def kind(g, e):
        # the type is passed by value: the call that filled it
        i = g.byid.get(e[2][2]) if isinstance(e[2], tuple) else None
        if i is None:
            return None
        for o in i.ops:
            x = strip_casts(static_expr(g, o))
            if x[0] == "al":
                # filled by type_kind_new(…) or a copy of it: last such call before the use, in the same block
                b = g.blocks[i.bb]
                src = x
                for j in reversed(b[:[id(y) for y in b].index(id(i))]):
                    if j.op == "call" and j.callee and j.ops:
                        if is_copy_name(j.callee) and strip_casts(static_expr(g, j.ops[0])) == src:
                            src = strip_casts(static_expr(g, j.ops[1]))
                        elif j.callee == "type_kind_new" and strip_casts(static_expr(g, j.ops[0])) == src:
                            return KT.get(const(static_expr(g, j.ops[1])))
        return None

    for g in list(p.unique()):
        if not g.file.startswith("src/"):
            continue
        for i in g.insts():
            if i.op != "call" or i.callee not in ("push_rt_call", "lir_rtcall"):
                continue
            o = 1 if i.callee == "push_rt_call" else 0
            e = static_expr(g, i.ops[o])
            ns = [x[1] for x in subexprs(e) if x[0] == "s"]
            if g.name in ("push_rt_call", "lir_rtcall"):
                continue
            if not ns:
                c.notes.append("name of the runtime call at %s is computed" % i.loc)
                continue
            cnt = const(static_expr(g, i.ops[o + 2]))
            args = i.ops[o + 3:]
            for name in ns:
                n += 1
                c.unit(g)
                key = "%s:%s" % (g.name, name)
                h = by.get(name)
                c.check("implicit", key + " exists", h is not None, key + ":exists", i.loc, "%s emits a call of %s, which the runtime does not define" % (g.name, name))
                if h is None:
                    continue
                want = [cls(*x) for x in h.sig]
                if cnt is None:
                    continue
                c.check("implicit", key, cnt == len(want) - 1 and cnt == len(args), key, i.loc, "%s calls %s with %d arguments, it takes %d" % (g.name, name, cnt, len(want) - 1))
                for a, (x, w) in enumerate(zip(args, want[1:])):
                    k = operand(g, x)
                    if k is None or w is None:
                        continue
                    if k[0] == "i" and w[0] in ("i", "p"):
                        # a constant wider than the parameter is cut to its width, a narrower one leaves the upper bytes undefined
                        cv = strip_casts(static_expr(g, x))
                        ok = k[1] >= w[1] if cv[0] == "call" and cv[1] in ("int_operand", "bool_operand") else k[1] == w[1]
                    else:
                        ok = agree(k, w)
                    c.check("operands", "%s argument %d" % (key, a + 1), ok, "%s:%d" % (key, a + 1), i.loc,
                            "%s passes %s of %d bytes as argument %d of %s, which takes %s of %d bytes" % (g.name, name_of(k), k[1], a + 1, name, name_of(w), w[1]))
                res = strip_casts(static_expr(g, i.ops[o + 1]))
                if is_null(res):
                    c.ok("result", key + " (unused)")
                    continue
                c.check("result", key, want[0] != ("v", 0), key + ":void", i.loc, "%s takes a result from %s, which returns nothing" % (g.name, name))
                k = operand(g, i.ops[o + 1])
                if k is not None and want[0] is not None and want[0][0] != "v":
                    c.check("result", key + " width", agree(k, want[0]), key + ":result", i.loc,
                            "%s takes the result of %s as %s of %d bytes, it returns %s of %d bytes" % (g.name, name, name_of(k), k[1], name_of(want[0]), want[0][1]))
    c.need(n >= 40, "implicit runtime calls not found")


def is_copy_name(n):
    return n.startswith(COPIES)


main("R03", TECH, body)
