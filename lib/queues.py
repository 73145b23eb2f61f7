"""Shape rules for the runtime's doubly linked queues: what a queue holds after each operation, for queues of every small length."""
from shape import *


def run_all(c, rule, p, f, mk, want, name, **kw):
    """every path of f admitted by a shape must lead to the wanted queue"""
    inl = kw.pop("inline")
    qs = [q for q in Walker(p, vn=False, blocks=True, inline=inl, loops=1).paths(f) if not q.dead]
    done = 0
    for label, heap, args, expect in mk():
        hit = 0
        for q in qs:
            s = Shape(heap, args, **kw)
            try:
                r = s.run(q)
            except Infeasible:
                continue
            hit += 1
            msg = want(s, r, expect)
            c.check(rule, f.name, msg is None, "%s:%s" % (name, label), q.end_loc(), "%s on a queue of %s: %s" % (name, label, msg), q.trace())
        c.need(hit >= 1, "%s: no path for %s" % (f.name, label))
        done += hit
    return done


# not used by every build of the runtime
OPTIONAL = {"linkco_list_remove", "rt_linked_fixalloc_first", "rt_linked_fixalloc_last", "rt_linked_fixalloc_remove", "rt_linked_fixalloc_empty"}

LINKCO = dict(fresh={"rti_acquire_linkco"}, stores={"rti_write_barrier_ptr": (0, 1)}, freed={"rti_release_linkco": 0})


def linkco_heap(n):
    h = {("list", "count"): n, ("list", "head"): ("p", "n0") if n else 0, ("list", "rear"): ("p", "n%d" % (n - 1)) if n else 0}
    for i in range(n):
        h[("n%d" % i, "co")] = ("v", "c%d" % i)
        h[("n%d" % i, "next")] = ("p", "n%d" % (i + 1)) if i + 1 < n else 0
        h[("n%d" % i, "prev")] = ("p", "n%d" % (i - 1)) if i else 0
    return h


def linkco_want(s, r, expect):
    vals, ret, gone = expect
    cells = listing(s, s.heap[("list", "head")], "next")
    got = [s.heap.get((x, "co")) for x in cells]
    if got != vals:
        return "it holds %s instead of %s" % ([x[1] if isinstance(x, tuple) else x for x in got], [x[1] for x in vals])
    if s.heap[("list", "rear")] != (("p", cells[-1]) if cells else 0):
        return "its rear is not the last entry"
    for a, b in zip(cells, cells[1:]):
        if s.heap.get((b, "prev"), 0) != ("p", a):
            return "the backward link of an entry is wrong"
    if cells and s.heap.get((cells[0], "prev"), 0) != 0:
        return "the first entry has a predecessor"
    if s.heap[("list", "count")] != len(vals):
        return "its count is %s for %d entries" % (s.heap[("list", "count")], len(vals))
    if ret is not None and r != ret:
        return "it yields %s" % (r,)
    if s.gone != gone:
        return "it gives back %s" % sorted(s.gone)
    return None


def linkco(c, rule, p):
    inl = lambda g: g.name.startswith("linkco_list")
    V = lambda n: [("v", "c%d" % i) for i in range(n)]
    new = ("v", "new")
    L = ("p", "list")

    def push():
        for n in range(3):
            yield str(n), linkco_heap(n), [L, new], (V(n) + [new], None, set())

    def push_head():
        for n in range(3):
            yield str(n), linkco_heap(n), [L, new], ([new] + V(n), None, set())

    def pop():
        for n in range(4):
            yield str(n), linkco_heap(n), [L], (V(n)[1:], V(n)[0] if n else 0, {"n0"} if n else set())

    def remove():
        for n in range(1, 4):
            for i in range(n):
                yield "%d/%d" % (i, n), linkco_heap(n), [L, ("p", "n%d" % i)], (V(i) + V(n)[i + 1:], None, {"n%d" % i})

    for fn, mk, name in (("linkco_list_push", push, "append"), ("linkco_list_push_head", push_head, "prepend"), ("linkco_list_pop", pop, "take"), ("linkco_list_remove", remove, "remove")):
        if fn in OPTIONAL and not any(g.name == fn for g in p.unique()):
            continue
        f = p.need(fn)
        c.unit(fn)
        run_all(c, rule, p, f, mk, linkco_want, name, inline=inl, **LINKCO)


RUNQ = dict(fresh={"fixalloc_alloc"}, freed={"fixalloc_free": 1})


def runq_heap(n):
    """n entries followed by the blank node at the rear"""
    h = {("list", "count"): n, ("list", "head"): ("p", "n0"), ("list", "rear"): ("p", "n%d" % n)}
    for i in range(n + 1):
        h[("n%d" % i, "value")] = ("v", "c%d" % i) if i < n else ("v", "stale")
        h[("n%d" % i, "succ")] = ("p", "n%d" % (i + 1)) if i < n else ("v", "stale")
        h[("n%d" % i, "prev")] = ("p", "n%d" % (i - 1)) if i else ("v", "stale")
    return h


def runq_want(s, r, expect):
    vals, ret, gone = expect
    rear = s.heap[("list", "rear")]
    cells = listing(s, s.heap[("list", "head")], "succ", stop=rear)
    got = [s.heap.get((x, "value")) if isinstance(x, str) else x for x in cells]
    if got != vals:
        return "it holds %s instead of %s" % ([x[1] if isinstance(x, tuple) else x for x in got], [x[1] for x in vals])
    cells.append(rear[1])
    for a, b in zip(cells, cells[1:]):
        if s.heap.get((b, "prev"), 0) != ("p", a):
            return "the backward link of an entry is wrong"
    if s.heap[("list", "count")] != len(vals):
        return "its count is %s for %d entries" % (s.heap[("list", "count")], len(vals))
    if ret is not None and r != ret:
        return "it yields %s" % (r,)
    if s.gone != gone:
        return "it gives back %s" % sorted(s.gone)
    return None


def runq(c, rule, p):
    inl = lambda g: g.name.startswith("rt_linked_fixalloc")
    V = lambda n: [("v", "c%d" % i) for i in range(n)]
    new = ("v", "new")
    L = ("p", "list")

    def push():
        for n in range(3):
            yield str(n), runq_heap(n), [L, new], (V(n) + [new], None, set())

    def push_head():
        for n in range(3):
            yield str(n), runq_heap(n), [L, new], ([new] + V(n), None, set())

    def pop():
        for n in range(4):
            yield str(n), runq_heap(n), [L], (V(n)[1:], V(n)[0] if n else 0, {"n0"} if n else set())

    def remove():
        for n in range(1, 4):
            for i in range(n):
                yield "%d/%d" % (i, n), runq_heap(n), [L, ("p", "n%d" % i)], (V(i) + V(n)[i + 1:], None, {"n%d" % i})

    def empty():
        for n in range(3):
            yield str(n), runq_heap(n), [L], (V(n), int(n == 0), set())

    def first():
        for n in range(3):
            yield str(n), runq_heap(n), [L], (V(n), ("p", "n0") if n else 0, set())

    def last():
        for n in range(3):
            yield str(n), runq_heap(n), [L], (V(n), ("p", "n%d" % (n - 1)) if n else 0, set())

    for fn, mk, name in (("rt_linked_fixalloc_push", push, "append"), ("rt_linked_fixalloc_push_heap", push_head, "prepend"), ("rt_linked_fixalloc_pop", pop, "take"),
                         ("rt_linked_fixalloc_remove", remove, "remove"), ("rt_linked_fixalloc_empty", empty, "emptiness test"), ("rt_linked_fixalloc_first", first, "first"),
                         ("rt_linked_fixalloc_last", last, "last")):
        if fn in OPTIONAL and not any(g.name == fn for g in p.unique()):
            continue
        f = p.need(fn)
        c.unit(fn)
        run_all(c, rule, p, f, mk, runq_want, name, inline=inl, **RUNQ)
        # every access happens between lock and unlock of the queue's own lock
        for q in Walker(p, vn=False, blocks=True, inline=inl, loops=1).paths(f):
            if q.dead:
                continue
            held = 0
            for e in q.ev:
                if e.k == "call" and e.name in ("pthread_mutex_lock", "pthread_mutex_unlock"):
                    held += 1 if e.name == "pthread_mutex_lock" else -1
                elif e.k in ("load", "store") and key_of(e.addr) and key_of(e.addr)[0] in ("rt_linked_fixalloc_t", "rt_linked_node_t"):
                    c.check(rule, fn, held == 1, "lock", e.loc, "the run queue is accessed %s its lock" % ("outside" if held == 0 else "with a double hold of"), q.trace())
            c.check(rule, fn, held == 0, "unlock", q.end_loc(), "the queue lock is left %s" % ("held" if held > 0 else "released twice"), q.trace())
