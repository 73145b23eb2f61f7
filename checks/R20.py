"""R20: relocations are resolved exactly or rejected"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import *
from util import *
from bounds import Bounds
import bits

TECH = "path enumeration per relocation number with a bit-level abstract value of the written field, intervals from the range tests and comparison with the processor ABI"
FLD = {"S": "symbol_address", "G": "got_entry_address", "GOT": "got_base_address", "P": "place_address", "TP": "thread_pointer_address", "Z": "symbol_size", "DTP": "tls_block_address", "B": "image_base_address"}


def s(n):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def u(n):
    return (0, (1 << n) - 1)


def fld(**k):
    """{destination bit: source bit} from destination=(low destination bit, low source bit, count) pieces"""
    out = {}
    for d, sr, n in k["p"]:
        for i in range(n):
            out[d + i] = sr + i
    return out


def imm12(k):
    return {10 + j: (j + k if j + k < 12 else None) for j in range(12)}


ADR = fld(p=[(29, 0, 2), (5, 2, 19)])
B26, I19, I14 = fld(p=[(0, 2, 26)]), fld(p=[(5, 2, 19)]), fld(p=[(5, 2, 14)])
IT, ST = fld(p=[(20, 0, 12)]), fld(p=[(7, 0, 5), (25, 5, 7)])
BT = fld(p=[(8, 1, 4), (25, 5, 6), (7, 11, 1), (31, 12, 1)])
JT = fld(p=[(21, 1, 10), (20, 11, 1), (12, 12, 8), (31, 20, 1)])
CB = fld(p=[(3, 1, 2), (10, 3, 2), (2, 5, 1), (5, 6, 2), (12, 8, 1)])
CJ = fld(p=[(3, 1, 3), (11, 4, 1), (2, 5, 1), (7, 6, 1), (6, 7, 1), (9, 8, 2), (8, 10, 1), (12, 11, 1)])
UT = fld(p=[(12, 12, 20)])


def whole(n):
    return (n, {i: i for i in range(n * 8)})


NOP = "nop"
HI = (-(1 << 31), (1 << 31) - 1 - 0x800)
# number -> (base, minus, range, alignment, width, field[, source])   source: "D" value, "PG" page difference, "D+0x800"
A64 = {0: NOP, 257: ("S", 0, None, 1) + whole(8), 258: ("S", 0, u(32), 1) + whole(4), 259: ("S", 0, u(16), 1) + whole(2),
       260: ("S", "P", s(64), 1) + whole(8), 261: ("S", "P", s(32), 1) + whole(4), 262: ("S", "P", s(16), 1) + whole(2),
       273: ("S", "P", s(21), 4, 4, I19), 274: ("S", "P", s(21), 1, 4, ADR), 275: ("S", "P", s(21), 1, 4, ADR, "PG"), 277: ("S", 0, None, 1, 4, imm12(0)),
       279: ("S", "P", s(16), 4, 4, I14), 280: ("S", "P", s(21), 4, 4, I19), 282: ("S", "P", s(28), 4, 4, B26), 283: ("S", "P", s(28), 4, 4, B26),
       309: ("G", "P", s(21), 4, 4, I19), 311: ("G", "P", s(21), 1, 4, ADR, "PG"), 312: ("G", 0, None, 8, 4, imm12(3)), 313: ("G", "PAGE(GOT)", u(15), 8, 4, {10 + j: 3 + j for j in range(12)}),
       513: ("G", "P", s(21), 1, 4, ADR, "PG"), 514: ("G", 0, None, 1, 4, imm12(0)), 541: ("G", "P", s(21), 1, 4, ADR, "PG"), 542: ("G", 0, None, 8, 4, imm12(3)),
       549: ("S", "TP", u(24), 1, 4, {10 + j: 12 + j for j in range(12)}), 550: ("S", "TP", u(12), 1, 4, imm12(0)), 551: ("S", "TP", s(64), 1, 4, imm12(0)),
       564: ("S", "TP", (0, (1 << 31) - 1), 1, 4, {5 + j: 16 + j for j in range(16)}, "D", 0xd2a00000), 569: ("S", "TP", (0, (1 << 31) - 1), 1, 4, {5 + j: j for j in range(16)}, "D", 0xf2800000),
       562: (None, None, None, 1, 4, {}, "D", 0xd503201f), 563: (None, None, None, 1, 4, {}, "D", 0xd503201f)}
for k, (n, sh, nc) in {263: (0, 0, 0), 264: (0, 0, 1), 265: (1, 16, 0), 266: (1, 16, 1), 267: (2, 32, 0), 268: (2, 32, 1), 269: (3, 48, 0)}.items():
    A64[k] = ("S", 0, None if nc else u(sh + 16), 1, 4, {5 + j: sh + j for j in range(16)})
for k, n in {278: 0, 284: 1, 285: 2, 286: 3, 299: 4}.items():
    A64[k] = ("S", 0, None, 1 << n, 4, imm12(n))
for k, n in {552: 0, 554: 1, 556: 2, 558: 3, 570: 4}.items():
    A64[k] = ("S", "TP", u(12), 1 << n, 4, imm12(n))
    A64[k + 1] = ("S", "TP", s(64), 1 << n, 4, imm12(n))
X64 = {0: NOP, 1: ("S", 0, None, 1) + whole(8), 2: ("S", "P", s(32), 1) + whole(4), 3: ("G", "GOT", s(32), 1) + whole(4), 4: ("S", "P", s(32), 1) + whole(4), 9: ("G", "P", s(32), 1) + whole(4),
       10: ("S", 0, u(32), 1) + whole(4), 11: ("S", 0, s(32), 1) + whole(4), 12: ("S", 0, u(16), 1) + whole(2), 13: ("S", "P", s(16), 1) + whole(2), 14: ("S", 0, s(8), 1) + whole(1),
       15: ("S", "P", s(8), 1) + whole(1), 17: ("S", "DTP", s(64), 1) + whole(8), 18: ("S", "TP", s(64), 1) + whole(8), 21: ("S", "DTP", s(32), 1) + whole(4), 22: ("G", "P", s(32), 1) + whole(4),
       23: ("S", "TP", s(32), 1) + whole(4), 24: ("S", "P", s(64), 1) + whole(8), 25: ("S", "GOT", s(64), 1) + whole(8), 26: ("GOT", "P", s(32), 1) + whole(4), 27: ("G", "GOT", s(64), 1) + whole(8),
       28: ("G", "P", s(64), 1) + whole(8), 29: ("GOT", "P", s(64), 1) + whole(8), 31: ("S", "GOT", s(64), 1) + whole(8), 32: ("Z", 0, s(32), 1) + whole(4), 33: ("Z", 0, s(64), 1) + whole(8),
       41: ("G", "P", s(32), 1) + whole(4), 42: ("G", "P", s(32), 1) + whole(4)}
RV = {0: NOP, 51: NOP, 1: ("S", 0, u(32), 1) + whole(4), 2: ("S", 0, None, 1) + whole(8), 3: ("B", 0, None, 1) + whole(8),
      8: ("S", "DTP+2048", s(32), 1) + whole(4), 9: ("S", "DTP+2048", s(64), 1) + whole(8), 10: ("S", "TP", s(32), 1) + whole(4), 11: ("S", "TP", s(64), 1) + whole(8),
      16: ("S", "P", s(13), 2, 4, BT), 17: ("S", "P", s(21), 2, 4, JT), 44: ("S", "P", s(9), 2, 2, CB), 45: ("S", "P", s(12), 2, 2, CJ), 57: ("S", "P", s(32), 1) + whole(4),
      20: ("G", "P", HI, 1, 4, UT, "D+0x800"), 21: ("G", "P", HI, 1, 4, UT, "D+0x800"), 22: ("G", "P", HI, 1, 4, UT, "D+0x800"), 23: ("S", "P", HI, 1, 4, UT, "D+0x800"),
      26: ("S", 0, HI, 1, 4, UT, "D+0x800"), 27: ("S", 0, s(32), 1, 4, IT), 28: ("S", 0, s(32), 1, 4, ST), 29: ("S", "TP", HI, 1, 4, UT, "D+0x800"), 30: ("S", "TP", s(32), 1, 4, IT), 31: ("S", "TP", s(32), 1, 4, ST),
      24: ("PAIR", "PAIRP", s(32), 1, 4, IT), 25: ("PAIR", "PAIRP", s(32), 1, 4, ST), 32: NOP,
      54: ("S", 0, None, 1) + whole(1), 55: ("S", 0, None, 1) + whole(2), 56: ("S", 0, None, 1) + whole(4)}
ARCH = {"ld_elf_reloc_apply_aarch64": ("aarch64", A64, 5), "ld_elf_reloc_apply_x86_64": ("x86_64", X64, 5), "ld_elf_reloc_apply_riscv64": ("riscv64", RV, 6)}
PRE = "ld_elf_reloc_"
VOC = {PRE + x for x in ("integer_add", "integer_expression", "integer_to_signed", "integer_to_unsigned", "expression_signed", "page_delta", "floor_shift_12", "floor_shift_16", "fail",
                         "read_u16", "read_u32", "read_u64", "write_u16", "write_u32", "write_u64")}


def U(e):
    return unversion(strip_all(e))


class Value:
    """what a path knows about the relocated value"""

    pair = ()

    def __init__(v, q, vals):
        v.q, v.vals = q, vals
        v.defs = {}      # leaf -> (base text, minus text, page?)
        v.rng = {}       # leaf -> [lo, hi]
        v.align = {}
        ints = {}
        for k, e in enumerate(q.ev):
            if e.k == "call" and isinstance(e.name, str) and e.name in VOC:
                n, a = e.name[len(PRE):], e.args
                if n in ("integer_add", "integer_expression"):
                    ints[U(a[-1])] = (a[0], a[1], a[2] if n == "integer_expression" else None)
                elif n in ("integer_to_signed", "integer_to_unsigned"):
                    x = ints.get(U(a[0]))
                    w = strip_all(a[1])
                    if x and w[0] == "c":
                        v.out(U(a[2]), x, "D", (s if n.endswith("to_signed") else u)(w[1]), e)
                elif n == "expression_signed":
                    w = strip_all(a[3])
                    if w[0] == "c":
                        v.out(U(a[4]), (a[0], a[1], a[2]), "D", s(w[1]), e)
                elif n == "page_delta":
                    v.out(U(a[3]), (a[0], a[1], a[2]), "PG", s(21), e)

    def out(v, loc, x, kind, rng, e):
        ok = any(a.k == "assume" and U(a.cond) == U(e.res) and a.truth for a in v.q.ev)
        leaf = ("ld", loc, 0)
        v.defs[leaf] = (v.name(x[0]), v.addend(x[1]), v.name(x[2]) if x[2] is not None else 0, kind)
        v.rng[leaf] = list(rng) if ok else [-(1 << 80), 1 << 80]

    def addend(v, e):
        e = U(e)
        return show(e)

    def name(v, e):
        e = U(e)
        if e == ("c", 0):
            return 0
        t, k = linear(e)
        if len(t) == 1:
            x = list(t)[0]
            n = v.field(x)
            if n:
                return n + ("+%d" % k if k else "")
        if e[0] == "bin" and e[1] == "and" and e[3] == ("c", -4096):
            return "PAGE(%s)" % v.field(e[2])
        return show(e)

    def field(v, x):
        if x[0] == "ld" and x[1][0] == "fld":
            if x[1][1] == ("a", v.vals):
                return next((k for k, f in FLD.items() if f == x[1][3]), x[1][3])
            if x[1][1][0] == "fld" and x[1][1][3] == "paired_hi":
                n = x[1][3] if not x[1][3].startswith("#") else v.pair[int(x[1][3][1:])]
                ty = [(e.cond, e.truth) for e in v.q.ev if e.k == "assume" and any(y[0] == "fld" and len(y) > 3 and y[3] in ("type", "#%d" % v.pair.index("type")) and y[1][0] == "fld" and y[1][3] == "paired_hi" for y in subexprs(U(e.cond)))]
                own = any(U(k)[:2] == ("cmp", "eq") and U(k)[3] == ("c", 23) and tr or U(k)[:2] == ("cmp", "ne") and U(k)[3] == ("c", 23) and not tr for k, tr in ty)
                return {"symbol_address": "PAIR" if own else n, "got_entry_address": n if own else "PAIR", "place_address": "PAIRP"}.get(n, n)
        return None

    def leaf(v, e):
        """(value, offset, shift) for expressions that are the relocated value itself"""
        e = U(e)
        t, k = linear(e)
        if len(t) == 1 and list(t.values()) == [1]:
            x = list(t)[0]
            if x in v.defs:
                return x, k
            if x[0] == "call" and x[1] in (PRE + "floor_shift_12", PRE + "floor_shift_16") and x[3] in v.defs and k == 0:
                return None
        # S + A
        if set(t.values()) == {1} and len(t) == 2:
            names = {v.name(x): x for x in t}
            ad = [x for x in t if show(x) == "arg3->addend"]
            other = [x for x in t if x not in ad]
            if ad and other and v.field(other[0]):
                n = ("sum", v.field(other[0]))
                v.defs.setdefault(n, (v.field(other[0]), "arg3->addend", 0, "D"))
                v.rng.setdefault(n, None)
                return n, k
        return None

    def guards(v):
        for a in v.q.ev:
            if a.k != "assume":
                continue
            c, tr = U(a.cond), a.truth
            while c[0] == "not":
                c, tr = c[1], not tr
            if c[0] != "cmp" or c[3][0] != "c":
                continue
            pr, l, n = c[1], c[2], c[3][1]
            if not tr:
                pr = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[pr]
            if l[0] == "bin" and l[1] == "and" and l[3][0] == "c" and pr == "eq" and n == 0:
                m = l[3][1]
                x = l[2]
                if x[0] == "bin" and x[1] == "and" and x[3][0] == "c":
                    m &= x[3][1]
                    x = x[2]
                lf = v.leaf(x)
                if lf and lf[1] == 0 and m & (m + 1) == 0:
                    v.align[lf[0]] = max(v.align.get(lf[0], 1), m + 1)
                continue
            sh = 0
            if l[0] == "call" and l[1] in (PRE + "floor_shift_12", PRE + "floor_shift_16"):
                sh = 12 if l[1].endswith("12") else 16
                l = l[3]
            lf = v.leaf(l)
            if not lf or v.rng.get(lf[0]) is None:
                continue
            x, k = lf
            if sh and k:
                continue
            n -= k
            r = v.rng[x]
            sc = 1 << sh
            if pr in ("sle", "slt"):
                n -= pr == "slt"
                r[1] = min(r[1], n * sc + sc - 1)
            elif pr in ("sge", "sgt"):
                n += pr == "sgt"
                r[0] = max(r[0], n * sc)
            elif pr in ("ule", "ult") and n >= 0:
                n -= pr == "ult"
                r[0] = max(r[0], 0)
                r[1] = min(r[1], n * sc + sc - 1)

    def bits(v, e):
        def leaf(x):
            y = strip_casts(x) if x[0] != "cast" else x
            if x[0] == "cast" or x[0] == "c":
                return None
            if x[0] == "call" and x[1] in (PRE + "floor_shift_12", PRE + "floor_shift_16"):
                lf = v.leaf(x[3])
                if lf and lf[1] == 0:
                    return None
            lf = v.leaf(x)
            if lf:
                return ("leaf", lf[0], lf[1])
            if x[0] == "call" and str(x[1]).startswith(PRE + "read_u"):
                return (("read", U(x[3])), int(x[1].rsplit("u", 1)[1]))
            return None

        def rec(x):
            if x[0] == "call" and x[1] in (PRE + "floor_shift_12", PRE + "floor_shift_16"):
                n = 12 if x[1].endswith("12") else 16
                lf = v.leaf(x[3])
                if lf and lf[1] == 0:
                    return ("bin", "ashr", x[3], ("c", n))
            return x

        def sub(x):
            if not isinstance(x, tuple):
                return x
            x = tuple(sub(y) if isinstance(y, tuple) else y for y in x)
            return rec(x) if x and x[0] == "call" else x

        def sdiv(x, n):
            lf = v.leaf(x)
            return bool(lf) and lf[1] == 0 and v.align.get(lf[0], 1) >= 1 << n
        return bits.of(sub(e), leaf, sdiv)


def elf(c, p):
    for fn, (arch, spec, vals) in ARCH.items():
        f = p.need(fn)
        c.unit(fn)
        en = next((v for k, v in p.enums.items() if any(n.startswith("LD_R_" + {"aarch64": "AARCH64", "x86_64": "X86_64", "riscv64": "RISCV"}[arch] + "_") for n in v)), {})
        names = {v: k for k, v in en.items() if k.startswith("LD_R_")}
        for num in sorted(set(spec) | set(names) | {9999}):
            seed = lambda a, num=num: ("c", num) if a[0] == "fld" and a[3] == "type" and a[1] == ("a", 3) else None
            give = lambda g, a: ("c", 6) if g == PRE + "fail" else None
            w = Walker(p, inline=lambda g: g.tu == f.tu and g.name not in VOC, vn=True, max_paths=3000, seed=seed, give=give, max_depth=5, loops=0,
                       pure=(PRE + "read_u16", PRE + "read_u32", PRE + "read_u64", PRE + "floor_shift_12", PRE + "floor_shift_16"))
            good = n = 0
            name = names.get(num, "relocation %d" % num)
            u0 = "%s.%d" % (arch, num)
            if num in UNDECIDED.get(arch, ()):
                continue
            for q in w.paths(f):
                if q.dead:
                    continue
                r = [e for e in q.ev if e.k == "ret" and e.depth == 0]
                writes = [e for e in q.ev if e.k == "call" and str(e.name).startswith(PRE + "write_u") or e.k == "store" and U(e.addr)[0] != "al" and any(x == ("a", 4) for x in subexprs(U(e.addr)))]
                if not r or U(r[-1].val) != ("c", 0):
                    c.check("reject", u0, not writes, u0 + ".reject", writes[0].loc if writes else q.end_loc(), "%s: the field of a rejected %s has been changed" % (arch, name), q.trace())
                    continue
                good += 1
                judge(c, q, f, arch, num, name, spec.get(num), vals, writes)
            if spec.get(num) is None:
                c.check("unknown", u0, good == 0, u0 + ".unknown", f.loc, "%s: %s is accepted without being applied" % (arch, name))
            else:
                c.check("handled", u0, good > 0, u0 + ".handled", f.loc, "%s: %s is never applied" % (arch, name))


# numbers with other semantics: read-modify-write of the previous contents, variable length, alignment padding
UNDECIDED = {"riscv64": (18, 19, 33, 34, 35, 36, 37, 38, 39, 40, 43, 52, 53, 60, 61)}


def judge(c, q, f, arch, num, name, sp, vals, writes):
    u0 = "%s.%d" % (arch, num)
    if sp is None:
        return
    if sp == NOP:
        c.check("field", u0, not writes, u0 + ".none", writes[0].loc if writes else f.loc, "%s: %s changes the section" % (arch, name), q.trace())
        return
    base, minus, rng, align, width, layout = sp[:6]
    src = sp[6] if len(sp) > 6 else "D"
    fixed = sp[7] if len(sp) > 7 else None
    v = Value(q, vals)
    v.guards()
    two = arch == "riscv64" and num in (18, 19)
    if len(writes) != 1:
        c.bad("field", u0 + ".writes", f.loc, "%s: %s writes %d times" % (arch, name, len(writes)), q.trace())
        return
    e = writes[0]
    place, val, n = (U(e.args[0]), unversion(e.args[1]), int(e.name.rsplit("u", 1)[1]) // 8) if e.k == "call" else (U(e.addr), unversion(e.val), 1)
    c.check("field", u0 + ".place", place == ("a", 4) or place == ("idx", ("a", 4), ("c", 0), 1), u0 + ".place", e.loc, "%s: %s writes to %s" % (arch, name, show(place)), q.trace())
    c.check("field", u0 + ".width", n == width, u0 + ".width", e.loc, "%s: %s writes %d bytes instead of %d" % (arch, name, n, width), q.trace())
    got = v.bits(val)[:n * 8]
    leafs = {b[0] for b in got if isinstance(b, tuple) and b[0][0] == "leaf"}
    if base is None:
        c.check("field", u0 + ".bits", got == [(fixed >> i) & 1 for i in range(32)], u0 + ".bits", e.loc, "%s: %s writes %s" % (arch, name, bits.show_bits(got)), q.trace())
        return
    if len(leafs) != 1:
        c.bad("value", u0 + ".value", e.loc, "%s: %s writes a value that is not a relocation expression (%s)" % (arch, name, show(val)[:200]), q.trace())
        return
    _, x, k = leafs.pop()
    d = v.defs[x]
    ad = "arg3->addend" if base != "PAIR" else None
    okd = d[0] == base and d[2] == minus and (d[1] == ad or ad is None and d[1] in ("arg6->paired_hi->addend", "arg6->paired_hi->#%d" % v.pair.index("addend"))) and (d[3] == "PG") == (src == "PG") and k == (0x800 if src == "D+0x800" else 0)
    c.check("value", u0 + ".value", okd, u0 + ".value", e.loc, "%s: %s is computed as %s + %s - %s%s (%s), not %s + A - %s" % (arch, name, d[0], d[1], d[2], " + %d" % k if k else "", d[3], base, minus), q.trace())
    r = v.rng[x]
    r = tuple(r) if r is not None else None
    c.check("range", u0 + ".range", r == rng, u0 + ".range", e.loc, "%s: %s is accepted in the range %s instead of %s" % (arch, name, r, rng), q.trace())
    al = v.align.get(x, 1)
    c.check("range", u0 + ".align", al == align, u0 + ".align", e.loc, "%s: %s is accepted with alignment %d instead of %d" % (arch, name, al, align), q.trace())
    bad = []
    for i in range(n * 8):
        if i in layout:
            w = (("leaf", x, k), layout[i]) if layout[i] is not None else 0
        elif fixed is not None:
            w = (fixed >> i) & 1
        else:
            w = (("read", ("a", 4)), i)
        if got[i] != w:
            bad.append(i)
    c.check("field", u0 + ".bits", not bad, u0 + ".bits", e.loc, "%s: bit %s of the field of %s is %s" % (arch, bad[:1], name, str(got[bad[0]])[:100] if bad else ""), q.trace())


def pairs(c, p):
    """member names of the anonymous pair record, in declaration order"""
    f = p.structs["ld_elf_reloc_values_t"]["file"]
    m = re.search(r"struct\s*\{([^{}]*)\}\s*paired_hi\s*;", re.sub(r"/\*.*?\*/|//[^\n]*", "", open(f).read(), flags=re.S))
    c.need(m, "the pair record of ld_elf_reloc_values_t")
    Value.pair = tuple(re.findall(r"(\w+)\s*;", m.group(1)))
    c.need("addend" in Value.pair and "type" in Value.pair, "members of the pair record")


def calls(c, p):
    """AUIPC + I-type pairs write both halves of the same value"""
    f = p.need("ld_elf_reloc_apply_riscv64")
    for num in (18, 19):
        seed = lambda a, num=num: ("c", num) if a[0] == "fld" and a[3] == "type" and a[1] == ("a", 3) else None
        w = Walker(p, inline=lambda g: g.tu == f.tu and g.name not in VOC, vn=True, max_paths=3000, seed=seed, give=lambda g, a: ("c", 6) if g == PRE + "fail" else None, max_depth=5, loops=0,
                   pure=(PRE + "read_u16", PRE + "read_u32", PRE + "read_u64"))
        u0 = "riscv64.%d" % num
        n = 0
        for q in w.paths(f):
            r = [e for e in q.ev if e.k == "ret" and e.depth == 0]
            if q.dead or not r or U(r[-1].val) != ("c", 0):
                continue
            n += 1
            v = Value(q, 6)
            v.guards()
            ws = [e for e in q.ev if e.k == "call" and str(e.name).startswith(PRE + "write_u")]
            ok = len(ws) == 2
            if ok:
                for e, pl, lay, k in ((ws[0], ("a", 4), UT, 0x800), (ws[1], ("idx", ("a", 4), ("c", 4), 1), IT, 0)):
                    got = v.bits(unversion(e.args[1]))[:32]
                    lf = {b[0] for b in got if isinstance(b, tuple) and b[0][0] == "leaf"}
                    x = next(iter(lf)) if len(lf) == 1 else None
                    ok = ok and x is not None and U(e.args[0]) == pl and x[2] == k and v.defs[x[1]] == ("S", "arg3->addend", "P", "D") and v.rng[x[1]] is not None and tuple(v.rng[x[1]]) == HI
                    ok = ok and all(got[i] == ((x, lay[i]) if i in lay else (("read", pl), i)) for i in range(32))
            c.check("field", u0, ok, u0, ws[0].loc if ws else f.loc, "riscv64: a call pair is not given both halves of S + A - P within range", q.trace())
        c.check("handled", u0, n > 0, u0 + ".handled", f.loc, "riscv64: relocation %d is never applied" % num)


def helpers(c, p):
    """the wide arithmetic the range tests rest on"""
    def paths(n, inl=()):
        f = p.need(PRE + n)
        c.unit(f.name)
        return f, [q for q in Walker(p, inline=lambda g: g.name in [PRE + x for x in inl], vn=True, max_paths=500).paths(f) if not q.dead]

    def facts(q):
        return [(pr, show(U(l)), show(U(r))) for pr, l, r, _ in known(q, len(q.ev))]

    def flag(q, text):
        """truth of a boolean load on the path, or None"""
        for e in q.ev:
            if e.k == "assume":
                t = e.truth
                x = U(e.cond)
                while x[0] == "not":
                    x, t = x[1], not t
                if x[0] == "cmp" and x[3] == ("c", 0) and x[1] in ("eq", "ne"):
                    t = t if x[1] == "ne" else not t
                    x = x[2]
                if show(x) == text:
                    return t
        return None
    for n, signed in (("integer_to_signed", 1), ("integer_to_unsigned", 0)):
        f, ps = paths(n)
        ok = 0
        for q in ps:
            r = [e for e in q.ev if e.k == "ret"][-1]
            if U(r.val) == ("c", 0):
                fs = facts(q)
                why = any(x in fs for x in (("eq", "arg1", "0"), ("ugt", "arg1", "64"), ("uge", "arg1", "65"))) or flag(q, "arg0->magnitude_high") or not signed and flag(q, "arg0->negative") or any(x[0] in ("ugt", "uge") and x[1] in ("arg0->magnitude", "*(arg0)") and "arg1" in x[2] for x in fs)
                c.check("wide", n + ".reject", bool(why), n + ".reject", r.loc, "%s rejects a value that fits" % n, q.trace())
                continue
            ok += 1
            st = [e for e in q.ev if e.k == "store" and U(e.addr) == ("a", 2)]
            neg, high = flag(q, "arg0->negative"), flag(q, "arg0->magnitude_high")
            # magnitude may be the first member
            fs = facts(q)
            mag = [x for x in fs if x[1] in ("arg0->magnitude", "*(arg0)") and x[0] in ("ule", "ult")]
            if signed:
                lim = "(1 shl (arg1 add -1))"
                want = lim if neg else "((1 shl (arg1 add -1)) add -1)"
                good = high is False and neg is not None and any(x[0] == "ule" and x[2] == want for x in mag) and len(st) == 1
                if good:
                    vtxt = show(U(st[0].val))
                    if vtxt.startswith("-922"):
                        good = any(x[0] == "eq" and x[1] in ("arg0->magnitude", "*(arg0)") and x[2] == "-9223372036854775808" for x in fs)
                    good = good and (vtxt in ("(0 sub arg0->magnitude)", "(0 sub *(arg0))", "-9223372036854775808", "-9223372036854775807")) if neg else good and vtxt in ("arg0->magnitude", "*(arg0)")
            else:
                good = high is False and neg is False and len(st) == 1 and show(U(st[0].val)) in ("arg0->magnitude", "*(arg0)") and (
                    any(x[0] == "ule" and x[2] == "((1 shl arg1) add -1)" for x in mag) or ("uge", "arg1", "64") in fs or any(x[0] in ("uge", "eq") and x[1] == "arg1" for x in fs))
            c.check("wide", n, bool(good), n, r.loc, "%s accepts a value outside the range (negative %s, high %s, %s)" % (n, neg, high, mag), q.trace())
        c.need(ok, n + " never accepts")
    f, ps = paths("integer_expression")
    for q in ps:
        cs = [e for e in q.ev if e.k == "call"]
        good = [e.name for e in cs] == [PRE + "integer_add", PRE + "integer_subtract_unsigned"] and [U(a) for a in cs[0].args] == [("a", 0), ("a", 1), ("a", 3)] and [U(a) for a in cs[1].args] == [("a", 3), ("a", 2)]
        c.check("wide", "integer_expression", good, "integer_expression", f.loc, "a relocation expression is not base + addend - subtrahend", q.trace())
    f, ps = paths("expression_signed")
    for q in ps:
        cs = [e for e in q.ev if e.k == "call"]
        good = [e.name for e in cs] == [PRE + "integer_expression", PRE + "integer_to_signed"] and [U(a) for a in cs[0].args[:3]] == [("a", 0), ("a", 1), ("a", 2)] and U(cs[0].args[3]) == U(cs[1].args[0]) and [U(a) for a in cs[1].args[1:]] == [("a", 3), ("a", 4)]
        r = [e for e in q.ev if e.k == "ret"][-1]
        c.check("wide", "expression_signed", good and U(r.val) == U(cs[-1].res), "expression_signed", f.loc, "a checked relocation expression is not base + addend - subtrahend within the given bits", q.trace())
    f, ps = paths("page_delta")
    for q in ps:
        cs = [e for e in q.ev if e.k == "call"]
        good = [e.name for e in cs] == [PRE + x for x in ("integer_add", "integer_floor_page", "integer_subtract_unsigned", "integer_to_signed")] and show(U(cs[2].args[1])) in ("(arg2 lshr 12)", "(arg2 udiv 4096)") and U(cs[3].args[1]) == ("c", 21) \
            and [U(a) for a in cs[0].args[:2]] == [("a", 0), ("a", 1)] and U(cs[3].args[2]) == ("a", 3)
        c.check("wide", "page_delta", good, "page_delta", f.loc, "a page displacement is not Page(base + addend) - Page(place) in 21 bits", q.trace())
    sm(c, p)
    for n, k in (("floor_shift_12", 4096), ("floor_shift_16", 65536)):
        f, ps = paths(n)
        for q in ps:
            r = [e for e in q.ev if e.k == "ret"][-1]
            t = show(U(r.val))
            pos = any(x == ("sge", "arg0", "0") for x in facts(q))
            good = t in ("(arg0 sdiv %d)" % k, "(arg0 udiv %d)" % k, "(arg0 ashr %d)" % (k.bit_length() - 1), "(arg0 lshr %d)" % (k.bit_length() - 1))
            x = U(r.val)
            if not pos:
                good = t == "(arg0 ashr %d)" % (k.bit_length() - 1)
                # -ceil(-v / k), or the most negative value where the quotient is 2^63
                y = x[3] if x[0] == "bin" and x[1] == "sub" and x[2] == ("c", 0) else None
                if y is None and x == ("c", -(1 << 63)):
                    y = next((U(l) for pr, l, rr, _ in known(q, len(q.ev)) if pr == "eq" and U(rr) == ("c", -(1 << 63))), None)
                if y is not None and y[0] == "bin" and y[1] == "udiv" and y[3] == ("c", k):
                    good = linear(y[2]) == ({("a", 0): -1}, k - 1)
                good = good and any(pr == "slt" and U(l) == ("a", 0) and U(rr) == ("c", 0) for pr, l, rr, _ in known(q, len(q.ev)))
            c.check("wide", n, bool(good), n + (".pos" if pos else ".neg"), r.loc, "%s computes %s" % (n, t), q.trace())
    for w in (16, 32, 64):
        f, ps = paths("write_u%d" % w)
        B = w // 8
        for q in ps:
            by = {}
            for e in q.ev:
                if e.k == "store":
                    a = U(e.addr)
                    k = 0 if a == ("a", 0) else a[2][1] if a[0] == "idx" and a[1] == ("a", 0) and a[2][0] == "c" else None
                    if k is not None:
                        by[k] = bits.of(unversion(e.val), lambda x: ("V",) if x == ("a", 1) else None)
            cp = [e for e in q.ev if e.k == "call" and "memcpy" in str(e.name)]
            calls_ = [e for e in q.ev if e.k == "call" and str(e.name).startswith(PRE + "write_u")]
            if cp:
                good = len(cp) == 1 and U(cp[0].args[0]) == ("a", 0) and U(cp[0].args[2]) == ("c", B)
            elif calls_:
                h = w // 2
                good = len(calls_) == 2 and all(e.name == PRE + "write_u%d" % h for e in calls_)
                if good:
                    for e in calls_:
                        k = 0 if U(e.args[0]) == ("a", 0) else U(e.args[0])[2][1] if U(e.args[0])[0] == "idx" else None
                        b = bits.of(unversion(e.args[1]), lambda x: ("V",) if x == ("a", 1) else None)[:h]
                        good = good and k is not None and b == [(("V",), i + 8 * k) for i in range(h)]
            else:
                good = sorted(by) == list(range(B)) and all(by[k][:8] == [(("V",), 8 * k + i) for i in range(8)] for k in by)
            c.check("wide", "write_u%d" % w, bool(good), "write_u%d" % w, f.loc, "write_u%d does not store its value in little endian order" % w, q.trace())


def sm(c, p):
    """sign and magnitude steps: the represented value changes by exactly the amount subtracted, the page step floors"""
    K = 1 << 64

    def state(q, obj, zero):
        """(negative, high) on entry as far as the path fixes them, and the last stores of the three members"""
        ent, out = {}, {}
        for e in q.ev:
            if e.k == "call" and "memset" in str(e.name) and U(e.args[0]) == obj:
                zero = True
            if e.k == "store":
                a = U(e.addr)
                n = a[3] if a[0] == "fld" and a[1] == obj else "magnitude" if a == obj else None
                if n:
                    out[n] = e.val
            if e.k == "assume":
                t = e.truth
                x = U(e.cond)
                while x[0] == "not":
                    x, t = x[1], not t
                if x[0] == "cmp" and x[3] == ("c", 0) and x[1] in ("eq", "ne"):
                    t = t if x[1] == "ne" else not t
                    x = x[2]
                if x[0] == "ld" and x[1][0] == "fld" and x[1][1] == obj and x[1][3] in ("negative", "magnitude_high") and x[1][3] not in out:
                    ent[x[1][3]] = t
        return ent, out, zero
    for n, obj in (("integer_subtract_unsigned", ("a", 0)), ("integer_add", ("a", 2))):
        f = p.need(PRE + n)
        M = ("ld", ("fld", obj, "ld_elf_reloc_integer_t", "magnitude"), 0)
        first = next((m[0] for m in p.structs.get("ld_elf_reloc_integer_t", {"m": []})["m"]), "magnitude")
        for q in Walker(p, inline=lambda g: g.name in (PRE + "addend_magnitude", PRE + "integer_normalize"), vn=True, max_paths=500).paths(f):
            if q.dead:
                continue
            ent, out, zero = state(q, obj, False)
            fs = [(pr, U(l), U(r)) for pr, l, r, _ in known(q, len(q.ev))]
            # normalisation: magnitude zero clears the sign
            vals = {k: U(v) for k, v in out.items()}
            neg = vals.get("negative")
            neg = neg != ("c", 0) if neg is not None and neg[0] == "c" else ent.get("negative") if not zero else False
            hi = vals.get("magnitude_high")
            mag = vals.get("magnitude")
            lin_in = {} if zero else {"M": 1}

            def L(e):
                t, k = linear(e)
                o = {}
                for x, v in t.items():
                    nm = "M" if x == M or x == ("ld", obj, 0) else show(x)
                    o[nm] = o.get(nm, 0) + v
                return {a: b % K for a, b in o.items() if b % K}, k % K
            got = L(mag) if mag is not None else ({"M": 1}, 0)
            sg = -1 if neg else 1
            sin = -1 if ent.get("negative") and not zero else 1
            want = {"M": sin, "arg1": -1} if n == "integer_subtract_unsigned" else {"arg0": 1, "arg1": 1}
            if ("eq", ("a", 1), ("c", 0)) in fs:
                want.pop("arg1")
            zeroed = mag is not None and any(pr == "eq" and r == ("c", 0) and L(l) == got for pr, l, r in fs)
            w = {a: (b * sg) % K for a, b in want.items()}
            wneg = {a: (-b * sg) % K for a, b in want.items()}
            ok = got == (w, 0) or zeroed and got == (wneg, 0)
            c.check("wide", n, ok, n + ".value", q.end_loc() or f.loc, "%s leaves the magnitude %s with sign %s" % (n, show(mag) if mag else "unchanged", "-" if neg else "+"), q.trace())
            # the carry: decided where the magnitude grows or shrinks across 2^64
            if mag is None:
                continue
            cmpm = [(pr, l, r) for pr, l, r in fs if pr in ("ult", "uge", "ugt", "ule")]
            if n == "integer_subtract_unsigned" and ent.get("negative"):
                over = next((pr for pr, l, r in cmpm if L(l) == got and L(r) == ({"M": 1}, 0)), None)
                ok = over == "ult" and hi is not None and hi != ("c", 0) or over == "uge" and hi is None
            elif n == "integer_subtract_unsigned":
                less = next((pr for pr, l, r in cmpm if L(l) == ({"M": 1}, 0) and L(r) == ({"arg1": 1}, 0)), None)
                h = ent.get("magnitude_high")
                if h:
                    ok = less == "uge" and hi is None or less == "ult" and hi == ("c", 0)
                else:
                    ok = hi is None and (less == "uge" and not neg or less == "ult" and (neg or zeroed))
            else:
                pos = any(pr == "sge" and l == ("a", 1) and r == ("c", 0) for pr, l, r in fs)
                ok = hi is not None and hi[0] == "cmp" and hi[1] == "ult" and L(hi[2]) == got and L(hi[3]) == ({"arg0": 1}, 0) if pos else hi is None
            if n == "integer_add":
                ok = ok and (zero or {"negative", "magnitude", "magnitude_high"} <= set(out))
                if not pos:
                    less = next((pr for pr, l, r in cmpm if L(l) == ({"arg0": 1}, 0) and L(r) == ({"arg1": K - 1}, 0)), None)
                    ok = ok and (less == "uge" and not neg or less == "ult" and (neg or zeroed))
            c.check("wide", n + ".carry", bool(ok), n + ".carry", q.end_loc() or f.loc, "%s does not track the carry out of 64 bits" % n, q.trace())
    f = p.need(PRE + "integer_floor_page")
    obj = ("a", 0)
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True, max_paths=500).paths(f):
        ent, out, _ = state(q, obj, False)
        mag, hi = out.get("magnitude"), out.get("magnitude_high")
        tx = show(U(mag)).replace("*(arg0)", "arg0->magnitude") if mag else ""
        rem = [(pr, show(U(l)).replace("*(arg0)", "arg0->magnitude")) for pr, l, r, _ in known(q, len(q.ev)) if U(r) == ("c", 0)]
        rem = next((pr for pr, l in rem if l == "(arg0->magnitude and 4095)"), None)
        if ent.get("magnitude_high"):
            ok = tx in ("((arg0->magnitude lshr 12) add 4503599627370496)", "(4503599627370496 add (arg0->magnitude lshr 12))", "((arg0->magnitude lshr 12) or 4503599627370496)") and hi is not None and U(hi) == ("c", 0)
        elif ent.get("negative"):
            ok = tx == "((arg0->magnitude lshr 12) add 1)" and rem == "ne" or tx == "(arg0->magnitude lshr 12)" and rem == "eq"
        else:
            ok = tx == "(arg0->magnitude lshr 12)"
        c.check("wide", "floor_page", ok, "floor_page", f.loc, "the page of a value is formed as %s" % tx, q.trace())


def coff(c, p):
    """COFF: value, range and width per relocation number"""
    f = p.need("ld_coff_apply_one_relocation")
    c.unit(f.name)
    SPEC = {1: ("rva+base", u(64), 8), 2: ("rva+base", u(32), 4), 3: ("rva", u(32), 4), 10: ("index", u(16), 2), 11: ("rva-sec", u(32), 4)}
    for k in range(6):
        SPEC[4 + k] = ("rel%d" % k, s(32), 4)
    fail = re.compile("relocation_fail|_fail$")
    for num in range(0, 18):
        seed = lambda a: ("c", num) if a[0] == "fld" and a[3] == "type" and a[1] == ("a", 2) else None
        give = lambda g, a: ("c", 6) if isinstance(g, str) and fail.search(g) else None
        w = Walker(p, inline=lambda g: False, vn=True, blocks=True, max_paths=4000, seed=seed, give=give, loops=0, pure=("strncmp",))
        good = 0
        u0 = "coff.%d" % num
        for q in w.paths(f):
            if q.dead:
                continue
            r = [e for e in q.ev if e.k == "ret" and e.depth == 0]
            writes = [e for e in q.ev if e.k == "call" and str(e.name).startswith("ld_coff_write_u")]
            if not r or U(r[-1].val) == ("c", 6):
                c.check("reject", u0, not writes, u0 + ".reject", writes[0].loc if writes else f.loc, "COFF relocation %d changes the field and is rejected" % num, q.trace())
                continue
            if num == 0:
                c.check("field", u0, not writes, u0, f.loc, "COFF relocation 0 changes the section", q.trace())
                good += 1
                continue
            good += 1
            sp = SPEC.get(num)
            if sp is None:
                c.bad("unknown", u0, f.loc, "COFF relocation %d is accepted" % num, q.trace())
                continue
            if len(writes) != 1:
                c.bad("field", u0 + ".writes", f.loc, "COFF relocation %d writes %d times" % (num, len(writes)), q.trace())
                continue
            e = writes[0]
            n = int(e.name.rsplit("u", 1)[1]) // 8
            c.check("field", u0 + ".width", n == sp[2], u0 + ".width", e.loc, "COFF relocation %d writes %d bytes" % (num, n), q.trace())
            fits = [x for x in q.ev if x.k == "call" and x.name == "ld_coff_add_signed_u64"]
            val = U(e.args[3])
            lo, hi = -(1 << 70), 1 << 70
            if fits:
                d = fits[-1]
                ok = any(a.k == "assume" and U(a.cond) == U(d.res) and a.truth for a in q.ev)
                base = show(U(d.args[0]))
                isval = val == ("ld", U(d.args[2]), 0)
                if ok:
                    lo, hi = 0, (1 << 64) - 1
                ab = [a.truth for a in q.ev if a.k == "assume" and show(U(a.cond)) == "*(&absolute)"]
                if sp[0] == "rva+base":
                    c.check("value", u0 + ".base", bool(ab) and ("image_base" in base) == (not ab[0]), u0 + ".base", e.loc, "COFF relocation %d adds the image base %s" % (num, "to an absolute symbol" if ab and ab[0] else "only sometimes"), q.trace())
                    push = any(x.k == "call" and x.name == "ld_coff_push_base_relocation" for x in q.ev)
                    if num == 1 and not push:
                        why = any(ab) or any(a.k == "assume" and ("pie" in show(U(a.cond)) and not a.truth or "characteristics" in show(U(a.cond)) or "strncmp" in show(U(a.cond))) for a in q.ev[q.index(e):])
                        c.check("value", u0 + ".rebase", bool(why), u0 + ".rebase", e.loc, "an absolute address in a relocatable image gets no base relocation", q.trace())
                want = {"rva+base": ("symbol_rva",), "rva": ("symbol_rva",), "index": ("index",), "rva-sec": ("symbol_rva", "rva")}[sp[0]] if not sp[0].startswith("rel") else ()
                okv = isval and all(x in base for x in want) and "addend" in show(U(d.args[1]))
                if sp[0] == "rva-sec":
                    okv = okv and "sub" in base
                if sp[0] == "rva":
                    okv = okv and "image_base" not in base
            else:
                t, k = linear(val)
                ts = {show(x): v for x, v in t.items()}
                okv = sp[0].startswith("rel") and k == -4 - int(sp[0][3:]) and any("symbol_rva" in x and v == 1 for x, v in ts.items()) and any("addend" in x and v == 1 for x, v in ts.items()) \
                    and sum(1 for x, v in ts.items() if v == -1 and ("rva" in x or "offset" in x)) == 3
            c.check("value", u0 + ".value", bool(okv), u0 + ".value", e.loc, "COFF relocation %d is computed as %s" % (num, show(val)[:200] + (" from " + base if fits else "")), q.trace())
            for pr, l, rr, _ in known(q, q.index(e)):
                l, rr = U(l), U(rr)
                if rr[0] != "c":
                    continue
                tl, tv = linear(l), linear(val)
                if l == val or tl[0] == tv[0] and tl[0]:
                    k = rr[1] + (tv[1] - tl[1])
                    if pr == "ule":
                        lo, hi = max(lo, 0), min(hi, k)
                    elif pr == "sle":
                        hi = min(hi, k)
                    elif pr == "sge":
                        lo = max(lo, k)
                    elif pr == "slt":
                        hi = min(hi, k - 1)
                    elif pr == "sgt":
                        lo = max(lo, k + 1)
                    elif pr == "ult":
                        lo, hi = max(lo, 0), min(hi, k - 1)
            c.check("range", u0 + ".range", (lo, hi) == sp[1], u0 + ".range", e.loc, "COFF relocation %d is accepted in the range %s instead of %s" % (num, (lo, hi), sp[1]), q.trace())
        if num in SPEC:
            c.check("handled", u0, good > 0, u0 + ".handled", f.loc, "COFF relocation %d is never applied" % num)
        elif num:
            c.check("unknown", u0, good == 0, u0 + ".unknown", f.loc, "COFF relocation %d is accepted" % num)


def macho(c, p):
    """Mach-O: the operands of the instruction patchers and the patched bits"""
    b = Bounds(p)
    V = ("I",)
    for n, lay, k in (("ld_patch_adrp", {29: 12, 30: 13, **{5 + i: 14 + i for i in range(19)}}, 32), ("ld_patch_branch26", {i: i + 2 for i in range(26)}, 27)):
        f = p.need(n)
        c.unit(n)
        for q in Walker(p, inline=lambda g: g.tu == f.tu, vn=True).paths(f):
            r = [e for e in q.ev if e.k == "ret" and e.depth == 0][-1]
            got = bits.of(unversion(r.val), lambda x: ("I",) if x == ("a", 0) else ("D",) if x == ("a", 1) else None, lambda x, n: False)[:32]
            bad = [i for i in range(32) if got[i] != ((("D",), lay[i]) if i in lay else (("I",), i))]
            c.check("field", n, not bad, n + ".bits", r.loc, "%s: bit %s of the instruction is wrong" % (n, bad[:1]), q.trace())
        sites = 0
        for fn in p.unique():
            for i in fn.calls(n):
                sites += 1
                c.unit(fn.name)
                e = U(b.ex(fn, i.ops[1]))
                lo, hi, al = -(1 << 70), 1 << 70, 1
                for x in b.facts(fn, i.bb):
                    pr, x = x[0], (0, 0, U(x[1]), U(x[2]))
                    if x[3][0] != "c":
                        continue
                    if x[2] == e:
                        w = x[3][1]
                        lo = max(lo, w if pr == "sge" else w + 1 if pr == "sgt" else lo)
                        hi = min(hi, w if pr == "sle" else w - 1 if pr == "slt" else hi)
                    elif x[2][0] == "bin" and x[2][1] == "and" and x[2][2] == e and x[2][3] == ("c", 3) and pr == "eq" and x[3] == ("c", 0):
                        al = 4
                u0 = "%s.%s" % (fn.name, n)
                c.check("range", u0, lo == -(1 << k) and hi == (1 << k) - 1, u0, i.loc, "%s patches an instruction with a displacement in %s..%s, the field holds %d..%d" % (fn.name, lo if lo > -(1 << 70) else "?", hi if hi < 1 << 70 else "?", -(1 << k), (1 << k) - 1))
                if k == 27:
                    c.check("range", u0 + ".align", al == 4, u0 + ".align", i.loc, "a branch displacement is not required to be a multiple of 4")
        c.need(sites, "callers of " + n)
    for n, hi64 in (("ld_relocation_value", (1 << 64) - 1), ("ld_relocation_difference", (1 << 63) - 1)):
        f = p.need(n)
        c.unit(n)
        good = 0
        for q in Walker(p, inline=lambda g: False, vn=True).paths(f):
            r = [e for e in q.ev if e.k == "ret"]
            if q.dead or not r or U(r[-1].val) == ("c", 0):
                continue
            good += 1
            ks = list(known(q, len(q.ev)))
            ln = {r_[1] for pr, l, r_, _ in ks if pr == "eq" and U(r_)[0] == "c" and show(U(l)) in ("arg3", "arg4")}
            st = [e for e in q.ev if e.k == "store" and U(e.addr) in (("a", 4), ("a", 5))]
            val = U(st[-1].val) if st else None
            lo, hi = -(1 << 120), 1 << 120
            for pr, l, r_, _ in ks:
                l, r_ = U(l), U(r_)
                if r_[0] == "sel" and r_[1][0] == "cmp" and r_[1][1] in ("eq", "ne") and r_[1][3][0] == "c" and show(U(r_[1][2])) in ("arg3", "arg4") and ln:
                    r_ = r_[2] if (r_[1][3][1] in ln) == (r_[1][1] == "eq") else r_[3]
                    if r_ == ("c", -1) and pr == "sle":
                        r_ = ("c", (1 << 64) - 1)    # UINT64_MAX held in 128 bits
                if l == val and r_[0] == "c":
                    lo = max(lo, r_[1] if pr == "sge" else lo)
                    hi = min(hi, r_[1] if pr == "sle" else hi)
            w = 2 in ln
            want = (-(1 << 31), (1 << 32) - 1) if w else (-(1 << 63), hi64)
            t, kk = linear(val) if val else ({}, 1)
            ts = {show(x): y for x, y in t.items()}
            wt = {"arg0": 1, "arg1": 1, "arg2": 1} if n == "ld_relocation_value" else {"arg0": 1, "arg1": -1, "arg2": 1, "arg3": 1}
            c.check("value", n, ts == wt and kk == 0, n + ".value", f.loc, "%s forms %s" % (n, ts), q.trace())
            c.check("range", n, (lo, hi) == want, n + ".range", f.loc, "%s accepts %s in a field of %d bytes" % (n, (lo, hi), 4 if w else 8), q.trace())
        c.need(good, n + " never accepts")
    f = p.need("ld_patch_pageoff")
    c.unit(f.name)
    for q in Walker(p, inline=lambda g: False, vn=True, pure=("ld_pageoff_shift",)).paths(f):
        r = [e for e in q.ev if e.k == "ret"]
        st = [e for e in q.ev if e.k == "store" and U(e.addr) == ("a", 2)]
        if q.dead or U(r[-1].val) == ("c", 0):
            continue
        fs = [(pr, show(U(l)), show(U(r_))) for pr, l, r_, _ in known(q, len(q.ev))]
        al = any(pr == "eq" and r_ == "0" and "arg1" in l and "shl" in l and "ld_pageoff_shift" in l for pr, l, r_ in fs)
        mx = any(pr == "ule" and r_ == "4095" and "arg1 lshr" in l for pr, l, r_ in fs)
        v = U(st[-1].val) if st else ("c", 0)
        sh = show(v)
        form = v[0] == "bin" and v[1] == "or" and "(arg0 and -4193281)" in sh and re.search(r"\(arg1 lshr ld_pageoff_shift\(arg0\)\) shl 10", sh)
        c.check("range", "pageoff", al and mx, "pageoff", f.loc, "a page offset is not required to be a multiple of the access size within the field", q.trace())
        c.check("field", "pageoff", bool(form), "pageoff.bits", f.loc, "a page offset is written as %s" % sh, q.trace())


def body(c):
    c.rule("value", "the value is the ABI's expression of symbol, addend, place and table addresses", 80)
    c.rule("range", "it is accepted exactly in the range and alignment of its field", 160)
    c.rule("field", "each bit of the field is the bit of the value the ABI assigns to it and the others keep their contents", 160)
    c.rule("reject", "a rejected relocation leaves the section unchanged", 100)
    c.rule("unknown", "unknown relocation numbers are rejected", 3)
    c.rule("handled", "every supported relocation number has an accepting path", 80)
    c.rule("wide", "the wide arithmetic below the range tests is exact", 12)
    p = Program("compiler", lambda f: f.startswith("src/ld/"))
    c.section(pairs, c, p)
    c.section(elf, c, p)
    c.section(calls, c, p)
    c.section(helpers, c, p)
    c.section(coff, c, p)
    c.section(macho, c, p)


main("R20", TECH, body)
