"""bit-by-bit abstract values: each bit of a word is 0, 1 or bit i of a leaf expression"""
from ir import strip_casts, unversion

W = 64
WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


def width(ty):
    return WIDTH.get(ty, 64)


def of(e, leaf, sdiv=lambda x, k: False):
    """`leaf(e)` names an indivisible expression and its width, or returns None to have it decomposed"""
    k = leaf(e)
    if k is not None:
        n, w = k if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], int) and k[1] in (8, 16, 32, 64) and isinstance(k[0], (tuple, str)) else (k, 64)
        return [(n, i) for i in range(w)] + [0] * (W - w)
    r = lambda x: of(x, leaf, sdiv)
    if e[0] == "c":
        return [(e[1] >> i) & 1 for i in range(W)]
    if e[0] == "cast":
        op, x, ty = e[1], e[2], e[3] if len(e) > 3 else "i64"
        b = r(x)
        if op == "trunc":
            w = width(ty)
            return b[:w] + [0] * (W - w)
        if op == "sext":
            w = src_width(x)
            return b[:w] + [b[w - 1]] * (W - w)
        return b
    if e[0] == "bin":
        op, x, y = e[1], e[2], e[3]
        if op in ("and", "or", "xor"):
            a, b = r(x), r(y)
            out = []
            for p, q in zip(a, b):
                if op == "and":
                    v = 0 if p == 0 or q == 0 else p if q == 1 or p == q else q if p == 1 else ("and", p, q)
                elif op == "or":
                    v = 1 if p == 1 or q == 1 else p if q == 0 or p == q else q if p == 0 else ("or", p, q)
                else:
                    v = p if q == 0 else q if p == 0 else 0 if p == q else ("xor", p, q)
                out.append(v)
            return out
        k = strip_casts(y)
        if k[0] == "c":
            n = k[1]
            if op == "mul" and n > 0 and n & (n - 1) == 0:
                op, n = "shl", n.bit_length() - 1
            if op == "udiv" and n > 0 and n & (n - 1) == 0:
                op, n = "lshr", n.bit_length() - 1
            if op == "sdiv" and n > 0 and n & (n - 1) == 0 and sdiv(x, n.bit_length() - 1):
                op, n = "ashr", n.bit_length() - 1
            if op == "urem" and n > 0 and n & (n - 1) == 0:
                return r(("bin", "and", x, ("c", n - 1)))
            if op == "shl":
                return ([0] * n + r(x))[:W]
            if op == "lshr":
                return r(x)[n:] + [0] * n
            if op == "ashr":
                b = r(x)
                return b[n:] + [b[-1]] * n
        if op == "add":
            # disjoint summands
            a, b = r(x), r(y)
            if all(p == 0 or q == 0 for p, q in zip(a, b)):
                return [p if q == 0 else q for p, q in zip(a, b)]
    return [(unversion(e), i) for i in range(W)]


def src_width(x):
    if x[0] == "cast" and x[1] == "trunc":
        return width(x[3])
    return 64


def show_bits(b):
    out, i = [], 0
    while i < len(b):
        j = i + 1
        while j < len(b) and isinstance(b[i], tuple) and isinstance(b[j], tuple) and len(b[i]) == 2 and len(b[j]) == 2 and b[j][0] == b[i][0] and b[j][1] == b[i][1] + (j - i):
            j += 1
        out.append("%d-%d:%s" % (i, j - 1, str(b[i])[:60]))
        i = j
    return " ".join(out)
