"""R17: a failed step never ends in a reported success.

Every call that can fail (allocation, file and process system calls, and every function of the linker, the assembler and the
build driver that can itself report a failure) is assumed to fail, and every continuation of its caller is followed.  Each must
end in a failure result, in a non-zero exit, or in the step being attempted again."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import main
from ir import Program
from extract import AnalysisError
from failflow import Flow, Limit, NZ, SHORT
from util import Reach

TECH = ("Failure-flow dataflow over the compiler's IR: which functions can fail is inferred as a fixpoint from the primitive "
        "calls, then each fallible call is assumed failed and all continuations of its caller are followed with constant "
        "propagation through phi nodes, memory and callee summaries; a continuation that returns success is a violation")

ALLOC = {n: 0 for n in ("malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray", "aligned_alloc")}
STREAM = {"fwrite": 0, "fputc": -1, "fputs": -1, "fprintf": -1}
IO = {"fopen": 0, "fdopen": 0, "fread": SHORT, "fclose": NZ, "open": -1, "read": -1, "write": -1, "lseek": -1,
      "fseek": -1, "ftell": -1, "fsync": -1, "rename": -1, "mkstemp": -1, "fchmod": -1, "ferror": NZ, "fflush": -1,
      "system": NZ, "fork": -1, "waitpid": -1, "popen": 0, "pclose": NZ, "close": -1, "ftruncate": -1, "fstat": -1, "chdir": -1,
      "pwrite": -1, "pread": -1, "mkdtemp": 0}
PRIM = dict(ALLOC, **STREAM, **IO)
AMOUNT = set(ALLOC) | {"fwrite"}
NORET = {"exit", "_exit", "_Exit", "abort", "__assert_fail", "__assert"}
FV = {"int": NZ, "bool": 0, "ptr": 0}
LINKER = "src/ld/"
SCOPE = ("src/ld/", "src/build/", "src/binary/", "utils/helper.h", "utils/assertf", "main.c", "cmd/root", "src/error", "src/assembly", "src/package.",
         "src/module", "utils/custom_links", "utils/toml", "utils/table", "utils/sc_map")
# failures a caller may treat as an answer: (function, code)
NAMED = {("ld_expand_rpath", 4)}      # an rpath this target does not understand is not searched
READONLY = ("r", "rb")


def kind(f):
    t = f.sig[0][0] if f.sig else "void"
    if f.ret == "void":
        return "void"
    if t == "_Bool":
        return "bool"
    if f.ret == "ptr":
        return "ptr"
    if t == "int" or t.endswith(("_result_t", "_status_t", "_result")):
        return "int"
    return "other"


def failed(k, v):
    if k == "int":
        return v == NZ or isinstance(v, int) and v != 0
    if k in ("bool", "ptr"):
        return v == 0
    if k == "other":
        return isinstance(v, int) and v < 0
    return False


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y)
    else:
        yield x


class Model:
    def __init__(s, p):
        s.p = p
        s.fns = [f for f in p.unique() if f.blocks and f.file.startswith(SCOPE)]
        s.byname = {}
        for f in s.fns:
            s.byname.setdefault(f.name, []).append(f)
        s.K = {id(f): kind(f) for f in s.fns}
        s.flow = Flow(p, {}, {}, NORET)
        s.flow.callee = s.call_result
        s._enter = {}
        s.busy = set()
        s.R = {id(f): s.returns(f) for f in s.fns}
        s.always, s.passes = {}, {}
        s.fixed()
        s._rec, s.errs = {}, s.error_fields()
        s.flow.watch = set(s.errs)
        s.fall = {}
        s.sites = {}
        for f in s.fns:
            for i in f.calls():
                s.sites.setdefault(i.callee, []).append((f, i))
        s.live = s.reachable()
        s.res = {}
        s.limits = []
        s.infer()

    def target(s, fn, name):
        l = s.byname.get(name)
        if not l:
            return None
        if len(l) == 1:
            return l[0]
        return next((x for x in l if x.tu == fn.tu), l[0])

    def returns(s, f):
        out = set()
        for i in f.insts():
            if i.op != "ret" or not i.ops:
                continue
            st, seen = [i.ops[0]], set()
            while st:
                o = st.pop()
                if str(o) in seen:
                    continue
                seen.add(str(o))
                c = Flow.const(o)
                if c is not None:
                    out.add(("c", c))
                    continue
                if isinstance(o, str) and o[0] == "a":
                    out.add(("a", int(o[1:])))
                    continue
                ins = f.byid.get(o) if isinstance(o, str) else None
                if ins is None:
                    out.add(("?",))
                elif ins.op == "phi":
                    st += [x[1] for x in ins.ops]
                elif ins.op == "select":
                    st += ins.ops[1:]
                elif ins.op == "call" and ins.callee:
                    out.add(("call", ins.callee, ins.id))
                elif ins.op == "load":
                    g = f.byid.get(ins.ops[0]) if isinstance(ins.ops[0], str) else None
                    if g is not None and g.op == "gep" and g.x and g.x[-1][0] == "f":
                        out.add(("fld", g.x[-1][1], g.x[-1][2]))
                    else:
                        out.add(("?",))
                else:
                    out.add(("?",))
        return out

    def fixed(s):
        """functions that always report failure, and functions that hand back one of their arguments"""
        ch = True
        while ch:
            ch = False
            for f in s.fns:
                if f.name in s.always or f.name in s.passes or len(s.byname[f.name]) > 1:
                    continue
                r = s.R[id(f)]
                if s.K[id(f)] == "bool" and r == {("c", 0)}:
                    s.always[f.name] = 0
                    ch = True
                if s.K[id(f)] != "int" or not r:
                    continue
                if len(r) == 1 and next(iter(r))[0] == "a":
                    s.passes[f.name] = next(iter(r))[1]
                    ch = True
                    continue
                ok = []
                for x in r:
                    if x[0] == "c":
                        ok.append(x[1] != 0)
                    elif x[0] == "call" and x[1] in s.always:
                        ok.append(True)
                    elif x[0] == "call" and x[1] in s.passes:
                        o = f.byid[x[2]].ops[s.passes[x[1]]]
                        if isinstance(o, str) and o[0] == "a" and len(r) == 1:
                            s.passes[f.name] = int(o[1:])
                            ch = True
                        ok.append(bool(Flow.const(o)))
                    else:
                        ok.append(False)
                if all(ok) and f.name not in s.passes:
                    s.always[f.name] = NZ
                    ch = True
        s.flow.always, s.flow.passes = s.always, s.passes

    def entered(s, g, args):
        k = (id(g), tuple(args))
        if k not in s._enter:
            if k in s.busy or len(s.busy) > 12:
                return None
            s.busy.add(k)
            try:
                s._enter[k] = s.flow.enter(g, args)
            except Limit:
                s._enter[k] = None
            finally:
                s.busy.discard(k)
        return s._enter[k]

    def call_result(s, fn, ins, vals):
        """what a callee does when some argument already says "failed": handled errors are passed along as arguments"""
        g = s.target(fn, ins.callee)
        if g is None or not any(isinstance(v, int) or v == NZ for v in vals):
            return None
        if len(g.blocks) > 60 or g.name in s.passes or g.name in s.always:
            return None
        saved = s.flow.called
        r = s.entered(g, vals)
        s.flow.called = saved
        if not r or not r[0]:
            return None
        ends = r[0]
        if all(e[0] in ("dead", "exit") and not (e[0] == "exit" and e[2] == 0) for e in ends):
            return "stops"
        rets = [e[2] for e in ends if e[0] == "ret"]
        if rets and all(v == rets[0] for v in rets):
            return rets[0]
        if rets and s.K[id(g)] == "int" and all(failed("int", v) for v in rets):
            return NZ
        return None

    def error_fields(s):
        """fields in which a failure-reporting function leaves the code it hands back"""
        out = {}
        for n, i in s.passes.items():
            f = s.byname[n][0]
            for ins in f.insts():
                if ins.op == "store" and ins.ops[0] == "a%d" % i and s.flow.field(f, ins.ops[1]):
                    out.setdefault(s.flow.field(f, ins.ops[1]), set()).add(n)
        ch = True
        while ch:
            ch = False
            for n, i in s.passes.items():
                for x in s.byname[n][0].calls():
                    if x.callee in s.passes and x.ops[s.passes[x.callee]] == "a%d" % i:
                        for fl in out:
                            if x.callee in out[fl] and n not in out[fl]:
                                out[fl].add(n)
                                ch = True
        return out

    def recorded(s, n):
        """fields that hold a failure code whenever n reports failure"""
        if n in s._rec:
            return s._rec[n]
        s._rec[n] = set(s.errs)          # optimistic for recursion
        fs = s.byname.get(n, [])
        got = set(s.errs) if fs else set()
        for f in fs:
            k = s.K[id(f)]
            if f.name in s.passes:
                got &= {fl for fl in s.errs if n in s.errs[fl]}
                continue
            if k != "int":
                got = set()
                break
            for x in s.R[id(f)]:
                if x[0] == "c" and x[1] == 0:
                    continue
                if x[0] == "call":
                    if x[1] in s.passes:
                        got &= {fl for fl in s.errs if x[1] in s.errs[fl]}
                    else:
                        got &= s.recorded(x[1])
                elif x[0] == "fld":
                    got &= {(x[1], x[2])}
                else:
                    got = set()
        s._rec[n] = got
        return got

    def fallible_here(s, f, i):
        """a call with constant arguments may exclude the failing part of the callee"""
        n = i.callee
        if n in PRIM:
            return True
        g = s.target(f, n)
        if g is None:
            return False
        vals = [Flow.const(o) for o in i.ops]
        flags = [v if v in (0, 1) else None for v in vals]
        if not any(v is not None for v in flags) or len(g.blocks) > 400:
            return True
        saved = s.flow.called
        r = s.entered(g, flags)
        s.flow.called = saved
        if not r:
            return True
        for cid in r[1]:
            c = g.byid[cid]
            if c.callee in PRIM or c.callee in s.fall or c.callee in s.passes or c.callee in s.always:
                return True
        return False

    def reachable(s):
        """functions the compiler's entry can reach; an address taken counts as a call"""
        seen, st = set(), [s.p.need("main")]
        while st:
            f = st.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            for i in f.insts():
                names = [i.callee] if i.op == "call" and i.callee else []
                for o in i.ops:
                    if isinstance(o, str) and o.startswith("@"):
                        names.append(o[1:])
                    elif isinstance(o, (list, tuple)):
                        names += [x[1:] for x in flat(o) if isinstance(x, str) and x.startswith("@")]
                for n in names:
                    g = s.p.resolve(f.tu, n)
                    if g is not None and g.blocks:
                        st.append(g)
        for n, g in s.p.globals.items():
            for x in flat(g.get("init") or []):
                if isinstance(x, str) and x.startswith("@"):
                    for g2 in s.byname.get(x[1:], ()):
                        seen.add(id(g2))
        return seen

    def stream_of(s, f, o, seen=None):
        """what a FILE* argument is: 'read', 'std', or 'write'"""
        seen = seen or set()
        if not isinstance(o, str) or o in seen:
            return set()
        seen.add(o)
        d = f.byid.get(o)
        if d is None:
            return {"write"}
        if d.op == "phi":
            return set().union(*[s.stream_of(f, x[1], seen) for x in d.ops])
        if d.op == "select":
            return s.stream_of(f, d.ops[1], seen) | s.stream_of(f, d.ops[2], seen)
        if d.op == "call" and d.callee in ("fopen", "fdopen") and len(d.ops) > 1:
            m = d.ops[1]
            txt = [x for x in flat(m) if isinstance(x, str)] if not isinstance(m, str) else [m]
            return {"read"} if any(x in READONLY for x in txt) else {"write"}
        if d.op == "load":
            r = str(d.ops[0])
            if "stderr" in r or "stdout" in r:
                return {"std"}
        return {"write"}

    def skipped(s, f, i):
        n = i.callee
        if n in ALLOC and not f.file.startswith(LINKER):
            return True
        if n == "fclose":
            return s.stream_of(f, i.ops[0]) <= {"read"}
        if n == "close":
            return not any(x.ops[:1] == i.ops[:1] for x in f.calls("write", "pwrite"))
        if n in STREAM:
            k = {"fwrite": 3, "fputc": 1, "fputs": 1, "fprintf": 0}[n]
            return s.stream_of(f, i.ops[k]) <= {"std"}
        return False

    def walk(s, f, i, v):
        k = (id(f), i.id)
        if k not in s.res:
            s.flow.fields = {fl: NZ for fl in s.recorded(i.callee)} if i.callee not in PRIM else {}
            s.flow.ret_of = {"ferror": NZ} if i.callee in STREAM or i.callee == "fread" else {}
            try:
                s.res[k] = s.flow.run(f, i, v, s.flow.amounts(f, i) if i.callee in AMOUNT else ())
            except Limit as x:
                # the continuations met so far decide if one of them already reports success
                kd = s.K[id(f)]
                if any(e[0] == "ret" and not failed(kd, e[2]) for e in x.ends):
                    s.res[k] = x.ends
                else:
                    s.res[k] = None
                    s.limits.append((f, i))
        return s.res[k]

    def infer(s):
        work = list(PRIM)
        for f in s.fns:
            if s.K[id(f)] == "int" and f.name not in s.always and f.name not in s.passes:
                if any(x[0] == "call" and (x[1] in s.always or x[1] in s.passes) for x in s.R[id(f)]):
                    s.fall[f.name] = NZ
                    work.append(f.name)
        done = set()
        s.checked = []
        while work:
            n = work.pop()
            if n in done:
                continue
            done.add(n)
            for f in s.byname.get(n, ()):
                if n in s.fall and s.K[id(f)] == "int":
                    for x in s.R[id(f)]:
                        if x[0] == "call" and x[1] in s.byname and s.K[id(s.target(f, x[1]))] == "int" and \
                                x[1] not in s.fall and x[1] not in s.always and x[1] not in s.passes:
                            s.fall[x[1]] = NZ
                            work.append(x[1])
            v = PRIM.get(n, s.fall.get(n))
            for f, i in s.sites.get(n, []):
                if id(f) not in s.live or s.skipped(f, i):
                    continue
                if not s.fallible_here(f, i):
                    continue
                ends = s.walk(f, i, v)
                s.checked.append((f, i, n))
                if ends is None or f.name in s.fall:
                    continue
                k = s.K[id(f)]
                if k in FV and s.R[id(f)] != {("c", 0)} and any(e[0] == "ret" and failed(k, e[2]) for e in ends):
                    s.fall[f.name] = FV[k]
                    work.append(f.name)


def body(c):
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/", "main", "cmd")))
    m = Model(p)
    c.rule("propagate", "a fallible call assumed failed: no continuation of its caller returns success", 1100)
    c.rule("inferred", "the fallible functions are found", 400)
    c.rule("replace", "an output is given its final name only after everything written to it succeeded, and is removed "
                      "otherwise", 6)
    c.rule("status", "the entry points of the linker and of the build stages are among the fallible functions", 8)
    c.ok("inferred", "functions able to fail", len(m.fall))
    for f, i in m.limits:
        raise AnalysisError("continuations of %s in %s not enumerated" % (i.callee, f.name))
    for f, i, n in m.checked:
        c.unit(f.name)
        ends = m.res[(id(f), i.id)]
        k = m.K[id(f)]
        bad = [e for e in ends if (e[0] == "ret" and not failed(k, e[2]) or e[0] == "exit" and e[2] == 0)
               and not any(t.op == "named" and (n, t.code) in NAMED for t in e[3])]
        c.check("propagate", f.name, not bad, "%s@%s" % (n, f.name), i.loc,
                "%s fails, and %s still reports success" % (n, f.name), [t.loc for t in bad[0][3]] if bad else [])
        c.check("propagate", f.name, not ends or any(e[0] != "retry" for e in ends), "%s@%s:retry" % (n, f.name), i.loc,
                "%s fails, and %s does nothing but call it again" % (n, f.name), [])
    for n in ("ld_link", "ld_write_file_atomic", "ld_elf_apply_relocations", "ld_coff_write_pe", "build_archive_write",
              "coff_object_write_file", "ld_parse_flags", "ld_add_input"):
        p.need(n)
        c.check("status", n, n in m.fall, n, p.need(n).loc, "%s cannot report a failure" % n)
    c.section(replace, c, m)


OUTPUTS = {"ld_write_file_atomic": ("unlink", "rename"), "build_archive_write": ("remove", None), "copy": ("remove", None)}


def replace(c, m):
    for n, (drop, final) in OUTPUTS.items():
        f = m.p.need(n)
        sites = [i for i in f.calls() if (i.callee in PRIM or i.callee in m.fall) and not m.skipped(f, i)
                 and i.callee not in ALLOC and i.callee not in ("fopen", "mkstemp", "open", "fdopen")]
        if not sites:
            raise AnalysisError("no fallible output step in " + n)
        m.flow.trace = {drop, final}
        for i in sites:
            m.flow.fields = {}
            m.flow.ret_of = {"ferror": NZ} if i.callee in STREAM or i.callee == "fread" else {}
            v = PRIM.get(i.callee, m.fall.get(i.callee))
            ends = m.flow.run(f, i, v, m.flow.amounts(f, i) if i.callee in AMOUNT else ())
            late = [e for e in ends if final and i.callee != final and any(t.op == "call" and t.callee == final for t in e[3][1:])]
            kept = [e for e in ends if e[0] in ("ret", "exit") and not any(t.op == "call" and t.callee == drop for t in e[3][1:])]
            c.check("replace", n, not late, "%s/%s named" % (n, i.callee), i.loc,
                    "%s fails and the output is still given its final name by %s" % (i.callee, n))
            c.check("replace", n, not kept, "%s/%s kept" % (n, i.callee), i.loc,
                    "%s fails and %s leaves the partial output behind" % (i.callee, n))
        m.flow.trace = set()


main("R17", TECH, body)
