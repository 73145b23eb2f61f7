"""Abstract evaluation of a path over a symbolic heap of named cells: which shapes of linked structures a path admits and what it leaves behind.

Cells are strings; a pointer value is ("p", cell) or 0; any other value is an opaque ("v", name) or an int.
"""
from util import *


class Infeasible(Exception):
    pass


class Opaque(Exception):
    pass


class Shape:
    def __init__(s, heap, args, fresh=(), stores=None, freed=(), calls=None):
        """heap: {(cell, field): value}; fresh: allocator names whose result is a new zeroed cell; stores: {callee: (slot index, value index)} for calls that
        act as a store; freed: {callee: index} of calls that give a cell back; calls: {callee: fn(shape, args) -> value}"""
        s.heap = dict(heap)
        s.args = args
        s.fresh, s.stores, s.freed, s.handlers = set(fresh), dict(stores or {}), dict(freed or {}), dict(calls or {})
        s.env = {}
        s.gone = set()
        s.touched_gone = False
        s.n = 0
        s.locals = {}

    def addr(s, e):
        e = strip_casts(e)
        if e[0] == "fld":
            b = strip_casts(e[1])
            # nested structs: the outer cell with a dotted field
            if b[0] in ("fld",):
                c, f = s.addr(b)
                return c, f + "." + e[3]
            v = s.val(b)
            if isinstance(v, tuple) and v[0] == "p":
                return v[1], e[3]
            if isinstance(v, tuple) and v[0] == "in":
                return v[1], v[2] + "." + e[3]
            if v == 0:
                raise Infeasible("null")
            raise Opaque(show(e))
        if e[0] == "al":
            return ("local", e[2]), "*"
        if e[0] == "idx":
            return s.addr(e[1])
        v = s.val(e)
        if isinstance(v, tuple) and v[0] == "in":
            return v[1], v[2]
        if isinstance(v, tuple) and v[0] == "p":
            return v[1], "*"
        raise Opaque(show(e))

    def load(s, a):
        if a[0] in s.gone:
            s.touched_gone = True
        if a in s.heap:
            return s.heap[a]
        if isinstance(a[0], str) and a[0].startswith("fresh"):
            return 0
        raise Opaque("%s.%s" % a)

    def val(s, e):
        if e in s.env:
            return s.env[e]
        e = strip_casts(e)
        if e in s.env:
            return s.env[e]
        k = e[0]
        if k == "c":
            return e[1]
        if k == "a":
            return s.args[e[1]]
        if k in ("fld", "al", "idx"):
            c, f = s.addr(e)
            return ("in", c, f)
        if k == "ld":
            return s.load(s.addr(e[1]))
        if k == "bin" and e[1] in ("add", "sub"):
            a, b = s.val(e[2]), s.val(e[3])
            if isinstance(a, int) and isinstance(b, int):
                return a + b if e[1] == "add" else a - b
        if k == "cmp":
            a, b = s.val(e[2]), s.val(e[3])
            if e[1] in ("eq", "ne"):
                if opaque(a) or opaque(b):
                    if a != b:
                        raise Opaque(show(e))
                return int((a == b) == (e[1] == "eq"))
            if isinstance(a, int) and isinstance(b, int):
                return int({"slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[e[1]])
        if k == "not":
            return int(not s.val(e[1]))
        raise Opaque(show(e))

    def run(s, q):
        """replays the path; returns its value or None; raises Infeasible when the shape does not take this path"""
        ret = None
        for e in q.ev:
            try:
                if e.k == "load":
                    s.env[e.res] = s.load(s.addr(e.addr))
                elif e.k == "store":
                    v = None
                    try:
                        v = s.val(e.val)
                    except Opaque:
                        v = ("v", show(e.val))
                    a = s.addr(e.addr)
                    if a[0] in s.gone:
                        s.touched_gone = True
                    s.heap[a] = v
                elif e.k == "assume":
                    v = s.val(e.cond)
                    if opaque(v):
                        continue
                    if (v != 0) != bool(e.truth):
                        raise Infeasible(show(e.cond))
                elif e.k == "call":
                    n = e.name
                    if n in s.stores:
                        ai, vi = s.stores[n]
                        s.heap[s.addr(e.args[ai])] = s.val(e.args[vi])
                    elif n in s.fresh:
                        s.n += 1
                        s.env[e.res] = ("p", "fresh%d" % s.n)
                    elif n in s.freed:
                        v = s.val(e.args[s.freed[n]])
                        if isinstance(v, tuple) and v[0] == "p":
                            if v[1] in s.gone:
                                s.touched_gone = True
                            s.gone.add(v[1])
                    elif n in s.handlers:
                        s.env[e.res] = s.handlers[n](s, e)
                elif e.k == "ret":
                    if e.val is not None:
                        try:
                            ret = s.val(e.val)
                        except Opaque:
                            ret = ("v", show(e.val))
            except Opaque:
                if e.k == "assume":
                    continue
                if e.k == "load":
                    s.env[e.res] = ("v", show(e.addr))
                    continue
                if e.k == "call":
                    continue
                raise
        return ret


def opaque(v):
    return isinstance(v, tuple) and v[0] == "v"


def listing(s, head, nxt, stop=0, limit=20):
    """cells reachable from a value through a field"""
    out, v = [], head
    while v != stop and v != 0 and len(out) < limit:
        if not (isinstance(v, tuple) and v[0] == "p"):
            return out + [v]
        out.append(v[1])
        v = s.heap.get((v[1], nxt), 0)
    return out
