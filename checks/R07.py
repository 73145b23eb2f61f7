"""R07: channels deliver each sent value once, in order, and close wakes everybody."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import main
from util import *

PRIM = {"co_ready", "co_yield_waiting", "rti_throw", "rti_co_throw", "rti_acquire_linkco", "rti_release_linkco", "coroutine_get", "rti_vec_access",
        "rt_vec_element_addr", "rti_gc_malloc", "rti_vec_new", "rt_find_rtype", "rti_vec_element_addr"}
STORES = {"rti_write_barrier_ptr": (0, 1), "write_barrier": (0, 1)}
LOCKS = {"pthread_mutex_lock", "pthread_spin_lock", "mutex_lock"}
UNLOCKS = {"pthread_mutex_unlock", "pthread_spin_unlock", "mutex_unlock"}


def qaddr(a):
    """(chan expr, 'sendq'|'recvq', 'head'|'rear') of a wait-queue end"""
    a = strip_casts(a)
    if a[0] == "fld" and a[3] in ("head", "rear"):
        b = strip_casts(a[1])
        if b[0] == "fld" and b[2] == "n_chan_t" and b[3] in ("sendq", "recvq"):
            return strip_casts(b[1]), b[3], a[3]
    return None


def fld(e, name):
    """base of field `name` if e is (a load of) that field"""
    e = strip_casts(e)
    if e[0] == "ld":
        e = strip_casts(e[1])
    if e[0] == "fld" and e[3] == name:
        return strip_casts(e[1])
    return None


def is_ld(e, name):
    e = strip_casts(e)
    return e[0] == "ld" and fld(e, name) is not None


class Sum:
    """what a path does to the channel"""

    def __init__(s, q):
        s.q = q
        s.pops, s.pushes, s.ready, s.copies, s.front, s.rear, s.throws, s.yields, s.succ, s.codata, s.acq, s.rel = ([] for _ in range(12))
        s.closed_st, s.removes = [], []
        s.cond = []   # (index, kind, chan, truth)
        s.cas = {}
        s.locks = []
        for n, e in enumerate(q.ev):
            if e.k == "store":
                v = strip_casts(e.val)
                qa = qaddr(e.addr)
                if qa:
                    ch, which, end = qa
                    if end == "head" and is_ld(v, "next"):
                        s.pops.append((n, which, ch, fld(v, "next")))
                    elif end == "rear" and not is_null(v) and not is_ld(v, "prev"):
                        s.pushes.append((n, which, ch, v))
                a = strip_casts(e.addr)
                if a[0] == "fld":
                    if a[2] == "n_chan_t" and a[3] == "buf_front":
                        s.front.append((n, strip_casts(a[1]), v))
                    if a[2] == "n_chan_t" and a[3] == "buf_rear":
                        s.rear.append((n, strip_casts(a[1]), v))
                    if a[2] == "n_chan_t" and a[3] == "closed":
                        s.closed_st.append((n, v))
                    if a[2] == "linkco_t" and a[3] == "success":
                        s.succ.append((n, strip_casts(a[1]), const(v)))
                    if a[2] == "coroutine_t" and a[3] == "data":
                        s.codata.append((n, strip_casts(a[1]), v))
            elif e.k == "call":
                if e.name == "co_ready":
                    s.ready.append((n, strip_casts(e.args[0])))
                elif e.name in ("rti_throw", "rti_co_throw"):
                    s.throws.append(n)
                elif e.name == "co_yield_waiting":
                    s.yields.append((n, e))
                elif is_copy(e):
                    s.copies.append((n, e.args[0], e.args[1], e.args[2]))
                elif e.name == "rti_vec_access":
                    s.copies.append((n, e.args[2], ("elem", strip_casts(e.args[0]), strip_casts(e.args[1])), None))
                elif e.name == "rti_acquire_linkco":
                    s.acq.append((n, e.res))
                elif e.name == "rti_release_linkco":
                    s.rel.append((n, strip_casts(e.args[0])))
                elif e.name in LOCKS or e.name in UNLOCKS:
                    s.locks.append((n, e.name in LOCKS, strip_casts(e.args[0])))
            elif e.k == "cas":
                s.cas[n] = (e, cas_success(q, e))
            elif e.k == "assume":
                k = s.classify(e)
                if k:
                    s.cond.append((n,) + k)
        r = q.ev[-1]
        s.ret = r.val if r.k == "ret" else None

    def classify(s, e):
        c, t = truth_of(e)
        c = strip_casts(c)
        x = c
        if c[0] == "cmp" and c[1] in ("eq", "ne") and const(c[3]) == 0:
            z = (c[1] == "eq") == t
            x = strip_casts(c[2])
            b = strip_casts(x[1]) if x[0] == "ld" else None
            if b and qaddr(b) and qaddr(b)[2] == "head":
                return ("q-" + qaddr(b)[1], qaddr(b)[0], z)
            if is_ld(x, "closed"):
                return ("closed", fld(x, "closed"), not z)
            if is_ld(x, "success"):
                return ("success", fld(x, "success"), not z)
            if is_ld(x, "length") and any(is_ld(y, "buf") for y in subexprs(x)):
                return ("nocap", fld(fld(x, "length"), "buf"), z)
            if x[0] == "a":
                return ("arg%d" % x[1], None, not z)
        elif c[0] == "ld" and is_ld(c, "closed"):
            return ("closed", fld(c, "closed"), t)
        elif c[0] == "ld" and is_ld(c, "success"):
            return ("success", fld(c, "success"), t)
        elif c[0] == "a":
            return ("arg%d" % c[1], None, t)
        if c[0] == "cmp" and c[1] in ("eq", "ne"):
            a, b = strip_casts(c[2]), strip_casts(c[3])
            eq = (c[1] == "eq") == t
            names = {n for y in (a, b) if y[0] == "ld" for n in ("buf_front", "buf_rear") if fld(y, n)}
            if names == {"buf_front", "buf_rear"}:
                return ("empty", fld(a, "buf_front") or fld(a, "buf_rear"), eq)
            for y, z in ((a, b), (b, a)):
                if is_ld(z, "buf_front") and y[0] == "bin" and next_of(y, "buf_rear", s.q):
                    return ("full", fld(z, "buf_front"), eq)
        return None

    def val(s, kind, before=None):
        """value the path learned for a condition (first mention before index)"""
        if kind.startswith("q-"):
            return s.empty_at(kind[2:], before)
        for n, k, ch, t in s.cond:
            if k == kind and (before is None or n < before):
                return t
        return None

    def empty_at(s, which, before=None, ch=None):
        """is the queue known empty (True) / non-empty (False): last look at its current head value"""
        cur, res = set(), None
        for e in s.q.ev[:before]:
            if ch is not None and e.k in ("load", "store") and qaddr(e.addr) and strip_all(unversion(qaddr(e.addr)[0])) != ch:
                continue
            if e.k == "load" and qaddr(e.addr) and qaddr(e.addr)[1:] == (which, "head"):
                cur.add(strip_casts(e.res))
            if e.k == "store" and qaddr(e.addr) and qaddr(e.addr)[1:] == (which, "head"):
                cur, res = {strip_casts(e.val)}, None
                if is_null(e.val):
                    res = True
            if e.k == "assume" and cur:
                cc, t = truth_of(e)
                if cc[0] == "cmp" and cc[1] in ("eq", "ne") and const(cc[3]) == 0 and strip_casts(cc[2]) in cur:
                    res = (cc[1] == "eq") == t
        return res

    def is_full(s, before=None):
        nc = s.val("nocap", before)
        if nc:
            return True
        return s.val("full", before)


def next_of(v, name, q, idx=None):
    """v is (old name + 1) wrapped at the buffer size"""
    v = strip_all(v)
    if v[0] == "bin" and v[1] in ("urem", "srem"):
        t, k = linear(v[2])
        n = list(t.items())
        m = v[3]
        return k == 1 and len(n) == 1 and n[0][1] == 1 and is_ld(n[0][0], name) and (is_ld(m, "length") or is_ld(m, "capacity"))
    t, k = linear(v)
    n = list(t.items())

    def wraps(want):
        for e in q.ev:
            if e.k == "assume":
                c, tr = truth_of(e)
                if c[0] == "cmp" and c[1] in ("eq", "ne", "uge", "sge", "ult", "slt", "ugt", "sgt"):
                    a, ka = linear(c[2])
                    b, kb = linear(c[3])
                    an = list(a.items())
                    bn = list(b.items())
                    if len(an) == 1 and len(bn) == 1 and is_ld(an[0][0], name) and ka - kb == 1 and (is_ld(bn[0][0], "length") or is_ld(bn[0][0], "capacity")):
                        at_end = tr if c[1] in ("eq", "uge", "sge") else (not tr) if c[1] in ("ne", "ult", "slt") else None
                        if at_end is want:
                            return True
        return False
    if k == 1 and len(n) == 1 and n[0][1] == 1 and is_ld(n[0][0], name):
        return wraps(False)
    if not n and k == 0:
        return wraps(True)
    return False


def body(c):
    p = Program("runtime", lambda f: f.startswith("runtime/"))
    R = c.rule
    R("closed-first", "a send looks at the closed flag before any effect; on a closed channel it raises, fails and changes nothing", 4)
    R("send-transfers-once", "a send that reports success hands the value to exactly one waiting receiver or exactly one buffer slot (or was taken by a receiver while parked)", 10)
    R("recv-transfers-once", "a receive that reports success obtained exactly one value: the buffer front, or the first waiting sender's value when the buffer is empty", 10)
    R("order", "buffered values leave before values of parked senders; a parked sender's value goes to the buffer end; a sender never bypasses a waiting receiver", 8)
    R("park", "a coroutine parks only when nothing can match it (and not in a try), registers itself and its value first, and releases the channel lock by the park callback", 4)
    R("wake-once", "each waiter taken from a queue is made runnable exactly once, with its outcome recorded before, and nobody else is made runnable", 20)
    R("select-commit", "a waiter registered by select is only taken after winning the coroutine's one-shot select flag", 10)
    R("queue-ops", "wait queues keep first-in first-out order and consistent head/rear/prev/next links", 8)
    R("close", "close fails on a closed channel, otherwise marks it closed under the lock and drains both queues, waking each waiter with failure", 8)
    R("try", "the try forms never park, and fail without effect only when nothing matched", 2)
    R("ring", "buffer indices advance by one modulo the buffer size; the element copied is the one at the index before the advance", 6)
    R("copy-exact", "a transferred message is copied whole, between the operation's message and the waiter's message (translated if its stack was moved out)", 6)
    R("select", "select commits to exactly one case, removes its other registrations and returns the index of the committed case", 10)
    R("under-lock", "queue, buffer and closed state are only touched while the channel's lock is held", 20)

    removers = set()
    inl = lambda f: f.name not in PRIM and f.file.startswith("runtime/rt_chan")

    def walk(fn, loops=1, start=None, mp=60000, extra=()):
        c.unit(fn)
        w = Walker(p, inline=lambda f: inl(f) and f.name not in extra, vn=True, loops=loops, stores=STORES, max_paths=mp, max_steps=12000000)
        return [q for q in w.paths(fn, start=start) if not q.dead]

    def common(fn, q, s, sel=False):
        name = fn.name

        def chk(rule, cond, what, loc=None):
            c.check(rule, name, cond, "%s: %s" % (name, what), loc or q.end_loc(), "%s: %s" % (name, what), q.trace())
        # committed pops
        comm = []
        for n, which, ch, x in s.pops:
            issel = None
            for e in q.ev[n:]:
                if e.k == "assume":
                    cc, t = truth_of(e)
                    y, tt = strip_casts(cc), t
                    if y[0] == "cmp" and const(y[3]) == 0 and y[1] in ("eq", "ne"):
                        tt = (y[1] == "ne") == t
                        y = strip_casts(y[2])
                    if is_ld(y, "is_select") and fld(y, "is_select") == x:
                        issel = tt
                        break
            if issel is False:
                comm.append((n, which, ch, x))
                c.ok("select-commit", name)
                continue
            won = None
            for m, (e, ok) in s.cas.items():
                a = strip_casts(e.addr)
                if m > n and a[0] == "fld" and a[3] == "select_done" and fld(a[1], "co") == x and const(e.args[0]) == 0 and const(e.args[1]) == 1:
                    won = ok
                    break
            readied = any(fld(r, "co") == x for m, r in s.ready)
            if issel is None:
                # never looked whether the waiter came from select
                chk("select-commit", won is True or not readied, "takes a waiter without checking whether its select already committed elsewhere")
                if readied:
                    comm.append((n, which, ch, x))
                continue
            chk("select-commit", won is not None or not readied, "wakes a select waiter without winning its one-shot flag")
            if won:
                comm.append((n, which, ch, x))
            else:
                chk("wake-once", not readied, "wakes a select waiter that had already committed to another case")
        for n, which, ch, x in comm:
            rs = [m for m, r in s.ready if fld(r, "co") == x]
            chk("wake-once", len(rs) == 1, "a waiter taken from %s is made runnable %d times" % (which, len(rs)))
            if rs:
                sv = [v for m, l, v in s.succ if l == x and m < rs[0]]
                chk("wake-once", bool(sv), "a waiter is made runnable before its outcome is recorded")
                cd = [1 for m, co, v in s.codata if m < rs[0] and fld(co, "co") == x and v == x]
                chk("wake-once", bool(cd), "a waiter is made runnable without telling it which registration fired")
        for m, r in s.ready:
            x = fld(r, "co")
            chk("wake-once", x is not None and any(x == y[3] for y in comm), "makes a coroutine runnable that was not taken from a wait queue")
        # every pop keeps links consistent
        for n, which, ch, x in s.pops:
            nxt = None
            for e in q.ev[n:]:
                if e.k == "assume":
                    cc, t = truth_of(e)
                    if cc[0] == "cmp" and cc[1] in ("eq", "ne") and const(cc[3]) == 0 and is_ld(cc[2], "next") and fld(cc[2], "next") == x:
                        nxt = (cc[1] == "ne") == t
                        break
            stop = min([m for m, w2, ch2, x2 in s.pops if m > n and w2 == which] + [len(q.ev)])
            later = [e for e in q.ev[n:stop] if e.k == "store"]
            rear0 = any(qaddr(e.addr) == (ch, which, "rear") and is_null(e.val) for e in later)
            prev0 = any(strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[3] == "prev" and is_null(e.val) and is_ld(strip_casts(e.addr)[1], "next")
                        and fld(strip_casts(e.addr)[1], "next") == x for e in later)
            for lk in ("prev", "next"):
                chk("queue-ops", any(strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[3] == lk and strip_casts(strip_casts(e.addr)[1]) == x and is_null(e.val) for e in later),
                    "a waiter leaves the queue with a stale %s link" % lk)
            if nxt is None:
                chk("queue-ops", False, "takes the first waiter without checking whether the queue became empty")
            elif nxt:
                chk("queue-ops", prev0 and not rear0, "after taking the first waiter the new head must have no predecessor and the rear must stay")
            else:
                chk("queue-ops", rear0, "after taking the last waiter the rear must be cleared")
        for n, which, ch, l in s.pushes:
            hs = [m for m in range(n) if q.ev[m].k == "store" and qaddr(q.ev[m].addr) == (ch, which, "head") and strip_casts(q.ev[m].val) == l]
            empty = s.empty_at(which, hs[0] if hs else n)
            st = [e for e in q.ev[:n + 1] if e.k == "store"] + [e for e in q.ev[n:n + 6] if e.k == "store"]
            headst = any(qaddr(e.addr) == (ch, which, "head") and strip_casts(e.val) == l for e in st)
            nextst = any(strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[3] == "next" and strip_casts(e.val) == l and is_ld(strip_casts(e.addr)[1], "rear")
                         for e in st)
            prevst = any(strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[3] == "prev" and strip_casts(strip_casts(e.addr)[1]) == l and is_ld(e.val, "rear")
                         for e in st)
            if empty is None:
                chk("queue-ops", False, "adds a waiter without checking whether the queue is empty")
            elif empty:
                chk("queue-ops", headst, "the first waiter must become the head")
            else:
                chk("queue-ops", nextst and prevst and not headst, "a further waiter must be linked behind the rear")
        # ring
        for lst, nm in ((s.front, "buf_front"), (s.rear, "buf_rear")):
            for n, ch, v in lst:
                chk("ring", next_of(v, nm, q), "%s does not advance by one slot around the buffer" % nm, q.ev[n].loc)
        for n, ch, v in s.front:
            src = [(m, d, sr) for m, d, sr, sz in s.copies if (sr[0] == "elem" and is_ld(sr[1], "buf")) or elem_index(sr) is not None]
            for m, d, sr in src:
                ix = sr[2] if sr[0] == "elem" else elem_index(sr)
                chk("ring", is_ld(ix, "buf_front"), "the value taken from the buffer is not the one at the front index")
        for n, ch, v in s.rear:
            dst = [(m, d, sr, sz) for m, d, sr, sz in s.copies if elem_index(d) is not None]
            chk("ring", len(dst) == 1 and is_ld(elem_index(dst[0][1]), "buf_rear"), "the value put into the buffer is not stored at the rear index")
        # whole message
        for m, d, sr, sz in s.copies:
            if sz is None:
                continue
            chk("copy-exact", is_ld(sz, "msg_size"), "copies a number of bytes other than the message size", q.ev[m].loc)
            for side in (d, sr):
                t = strip_all(side)
                if any(is_ld(z, "data") and "linkco_t" in repr(z) for z in subexprs(t)):
                    terms, k = linear(side)
                    moved = owner_moved(q, m)
                    ks = sorted((fieldname(x), v) for x, v in terms.items())
                    direct = ks == [("data", 1)] and k == 0
                    trans = ks == sorted([("data", 1), ("ptr", 1), ("valid_sz", 1), ("align_retptr", -1)]) and k == 0
                    chk("copy-exact", (direct and moved is False) or (trans and moved is True),
                        "the waiter's message address is %s although its stack %s" % ("used directly" if direct else "translated" if trans else "wrong",
                                                                                      {True: "was moved out", False: "is in place", None: "was not looked at"}[moved]), q.ev[m].loc)
                    held = [a for n2, lk, a in s.locks if n2 < m and fld(a, "owner_lock") is not None and lk]
                    rel = [a for n2, lk, a in s.locks if n2 < m and fld(a, "owner_lock") is not None and not lk]
                    chk("copy-exact", len(held) > len(rel), "touches another coroutine's stack without its owner lock", q.ev[m].loc)
        return chk, comm

    def lockset(fn, q, s, chk):
        held = 0
        ls = {n: lk for n, lk, a in s.locks if fld(a, "lock") is not None and "n_chan_t" in repr(a)}
        touched = False
        for n, e in enumerate(q.ev):
            if n in ls:
                held += 1 if ls[n] else -1
            if e.k == "call" and e.name == "co_yield_waiting":
                held = 0
            a = None
            if e.k in ("store", "load"):
                a = strip_casts(e.addr)
                if a[0] == "fld" and (a[2] == "n_chan_t" and a[3] in ("closed", "buf_front", "buf_rear") or qaddr(a)):
                    touched = True
                    if held <= 0:
                        chk("under-lock", False, "touches channel state (%s) without holding the channel lock" % a[3], e.loc)
                        return
        if touched:
            c.ok("under-lock", fn.name)
        balance(fn, q, s, chk)

    def balance(fn, q, s, chk):
        """every lock taken on the path is released exactly once by its end; parking releases the channel lock through the callback"""
        held = {}
        for n, e in enumerate(q.ev):
            if e.k != "call":
                continue
            if e.name == "co_yield_waiting":
                k = strip_all(unversion(e.args[2]))
                held[k] = held.get(k, 0) - 1
            elif e.name in LOCKS or e.name in UNLOCKS:
                k = strip_all(unversion(e.args[0]))
                held[k] = held.get(k, 0) + (1 if e.name in LOCKS else -1)
                chk("under-lock", held[k] in (0, 1), "a lock is %s twice" % ("taken" if held[k] > 1 else "released"), e.loc)
        chk("under-lock", not any(held.values()), "returns with a lock still held")

    # ---------------------------------------------------------------- send
    def do_send():
        f = p.need("rt_chan_send")
        ways = set()
        for q in walk(f):
            s = Sum(q)
            chk, comm = common(f, q, s)
            lockset(f, q, s, chk)
            effects = [x[0] for x in s.pops + s.pushes + s.rear + s.front] + [n for n, e in s.yields]
            closed = s.val("closed")
            first = min(effects) if effects else None
            if effects:
                chk("closed-first", s.val("closed", first) is False, "has an effect before finding the channel open")
            ret = const(s.ret) if s.ret is not None else None
            if closed:
                chk("closed-first", bool(s.throws) and ret == 0 and not effects, "a send on a closed channel must raise and change nothing")
                continue
            handed = [x for x in comm if x[1] == "recvq"]
            chk("send-transfers-once", not [x for x in s.pops if x[1] == "sendq"], "a send takes a waiter from the senders' queue")
            nb = len(s.rear)
            ways.update(["parking"] * bool(s.yields) + ["handing over"] * bool(handed) + ["buffering"] * bool(nb))
            chk("send-transfers-once", not s.front, "a send removes a value from the buffer")
            if s.yields:
                n = s.yields[0][0]
                e = s.yields[0][1]
                chk("park", s.val("q-recvq", n) is True, "parks without having found the receivers' queue empty")
                chk("park", s.is_full(n) is True, "parks although the buffer has room")
                chk("park", s.val("arg2", n) is False, "parks in a try-send")
                chk("park", not handed and nb == 0, "parks after having transferred the value")
                park(chk, q, s, n, e, "sendq")
                ok = s.val("success")
                if ok is None:
                    chk("send-transfers-once", False, "returns from parking without looking at its outcome")
                elif ok:
                    chk("send-transfers-once", ret not in (0, None) and not s.throws, "a value taken by a receiver is reported as failed")
                else:
                    chk("closed-first", bool(s.throws) and ret == 0, "a sender woken by close must raise")
                continue
            if s.throws:
                chk("closed-first", s.val("closed") is True, "raises on an open channel")
                continue
            if ret == 0:
                chk("try", not effects_now(s) and s.val("arg2") is True and s.val("q-recvq") is True and s.is_full() is True,
                    "a non-parking send gives up although a receiver or buffer room was available, or after an effect")
                continue
            chk("send-transfers-once", len(handed) + nb == 1, "reports success after handing the value over %d times" % (len(handed) + nb))
            if handed:
                x = handed[0][3]
                vals = [v for m, l, v in s.succ if l == x]
                chk("send-transfers-once", vals and vals[-1] == 1 or vals and vals[-1] == -1, "a receiver handed a value is told it failed")
                # the waiter's message location may be empty (select case without a target)
                nod = any(e.k == "assume" and is_ld(truth_of(e)[0][2] if truth_of(e)[0][0] == "cmp" else truth_of(e)[0], "data") and nullish(e) for e in q.ev)
                cp = [1 for m, d, sr, sz in s.copies if strip_casts(sr) == ("a", 1) and any(is_ld(z, "data") and fld(z, "data") == x for z in subexprs(d))]
                chk("send-transfers-once", nod or len(cp) == 1, "the value is not copied to the receiver that is woken")
                rs = [m for m, r in s.ready if fld(r, "co") == x]
                chk("send-transfers-once", nod or (rs and all(m2 < rs[0] for m2, d, sr, sz in s.copies)), "the receiver is made runnable before it has the value")
            elif nb:
                chk("order", s.val("q-recvq") is True, "puts a value into the buffer although a receiver is waiting")
                chk("order", s.is_full() is False, "puts a value into a full buffer")
                cp = [1 for m, d, sr, sz in s.copies if strip_casts(sr) == ("a", 1) and elem_index(d) is not None]
                chk("send-transfers-once", len(cp) == 1, "the value is not copied into the buffer slot")
        for w in ("parking", "handing over", "buffering"):
            c.check("send-transfers-once", f.name, w in ways, f.name + ":" + w, f.loc, "rt_chan_send cannot complete by %s" % w)

    # ---------------------------------------------------------------- recv
    def do_recv():
        f = p.need("rt_chan_recv")
        ways = set()
        for q in walk(f):
            s = Sum(q)
            chk, comm = common(f, q, s)
            lockset(f, q, s, chk)
            ret = const(s.ret) if s.ret is not None else None
            taken = [x for x in comm if x[1] == "sendq"]
            chk("recv-transfers-once", not [x for x in s.pops if x[1] == "recvq"], "a receive takes a waiter from the receivers' queue")
            got_buf = len(s.front)
            ways.add("parking" if s.yields else (bool(taken), bool(got_buf)))
            if s.yields:
                n, e = s.yields[0]
                chk("park", s.val("q-sendq", n) is True and s.val("empty", n) is True, "parks although a value was available")
                chk("park", s.val("arg2", n) is False, "parks in a try-receive")
                chk("park", s.val("closed", n) is False, "parks on a closed channel")
                park(chk, q, s, n, e, "recvq")
                ok = s.val("success")
                if ok is None:
                    chk("recv-transfers-once", False, "returns from parking without looking at its outcome")
                elif ok:
                    chk("recv-transfers-once", ret not in (0, None) and not s.throws, "a delivered value is reported as failure")
                else:
                    chk("close", bool(s.throws) and ret == 0, "a receiver woken by close must raise")
                continue
            if s.throws:
                chk("close", s.val("closed") is True and s.val("q-sendq") is True and s.val("empty") is True and not got_buf and not taken and ret == 0,
                    "raises closed although a value is still buffered or a sender is waiting")
                continue
            if ret == 0:
                chk("try", s.val("arg2") is True and s.val("q-sendq") is True and s.val("empty") is True and not effects_now(s),
                    "a non-parking receive gives up although a value was available, or after an effect")
                continue
            tomsg = [(m, sr) for m, d, sr, sz in s.copies if strip_casts(d) == ("a", 1)]
            nullmsg = any(e.k == "assume" and nullish(e) and ("a", 1) in subexprs(e.cond) for e in q.ev)
            chk("recv-transfers-once", nullmsg or len(tomsg) == 1, "obtains %d values" % len(tomsg))
            if taken:
                x = taken[0][3]
                chk("recv-transfers-once", len(taken) == 1, "takes the values of several senders")
                vals = [v for m, l, v in s.succ if l == x]
                chk("recv-transfers-once", bool(vals) and vals[-1] in (1, -1), "a sender whose value was taken is told it failed")
                fromx = [(m, d) for m, d, sr, sz in s.copies if any(is_ld(z, "data") and fld(z, "data") == x for z in subexprs(sr))]
                chk("recv-transfers-once", len(fromx) == 1, "the parked sender's value is copied %d times" % len(fromx))
                em = s.val("empty")
                if em is True:
                    chk("order", got_buf == 0 and len(s.rear) == 0 and fromx and strip_casts(fromx[0][1]) == ("a", 1), "with an empty buffer the sender's value goes to the receiver")
                elif em is False:
                    chk("order", got_buf == 1 and len(s.rear) == 1 and fromx and elem_index(fromx[0][1]) is not None, "with a filled buffer the front value is delivered and the sender's value appended")
                    if got_buf and s.rear and tomsg:
                        chk("order", s.front[0][0] < s.rear[0][0] and tomsg[0][0] < fromx[0][0] if fromx else False, "the front value must be taken before the sender's value is appended")
                else:
                    chk("order", False, "takes a parked sender's value without looking at the buffer")
                rs = [m for m, r in s.ready if fld(r, "co") == x]
                chk("recv-transfers-once", bool(rs) and all(m < rs[0] for m, _ in fromx), "the sender is made runnable before its value was copied")
            else:
                chk("recv-transfers-once", got_buf == 1 and s.val("empty") is False, "reports success without a value")
                chk("order", s.val("q-sendq") is True, "takes from the buffer leaving a parked sender behind")
        for w, what in (("parking", "parking"), ((True, False), "taking a parked sender's value"), ((False, True), "taking a buffered value"),
                        ((True, True), "taking a buffered value while a sender is parked")):
            c.check("recv-transfers-once", f.name, w in ways, f.name + ":" + what, f.loc, "rt_chan_recv cannot complete by %s" % what)

    def park(chk, q, s, n, e, which):
        pu = [x for x in s.pushes if x[0] < n]
        chk("park", len(pu) == 1 and pu[0][1] == which, "parks without registering in %s" % which)
        if not pu:
            return
        l = pu[0][3]
        st = {}
        for m, x in enumerate(q.ev[:pu[0][0] + 1]):
            if x.k == "store":
                a = strip_casts(x.addr)
                if a[0] == "fld" and a[2] == "linkco_t" and strip_casts(a[1]) == l:
                    st[a[3]] = strip_casts(x.val)
        chk("park", "co" in st and strip_casts(e.args[0]) == st["co"], "registers another coroutine than the one that parks")
        chk("park", st.get("data") == ("a", 1), "registers without its message location")
        chk("park", const(st.get("is_select", ("c", 0))) == 0, "registers a plain operation as a select case")
        cb = fnname(e.args[1])
        g = p.resolve(e.ins.fn.tu, cb) if cb else None
        okcb = False
        if g:
            okcb = all(len([x for x in qq.calls(*UNLOCKS) if strip_casts(x.args[0]) == ("a", 1)]) == 1 and const(qq.ev[-1].val) != 0 for qq in Walker(p).paths(g) if not qq.dead)
        chk("park", okcb and fld(e.args[2], "lock") == ("a", 0), "the park callback does not release the channel lock")
        # not unlocked before parking
        chk("park", not [1 for m, lk, a in s.locks if m < n and not lk and fld(a, "lock") == ("a", 0)], "releases the channel lock before it is parked")
        rel = [m for m, x in s.rel if x == l]
        chk("park", len(rel) == 1 and rel[0] > n, "its registration is released %d times" % len(rel))
        used = [m for m, k, ch, t in s.cond if k == "success"]
        # the outcome is read before the registration is recycled
        rd = [m for m, x in enumerate(q.ev) if x.k == "load" and fld(x.addr, "success") == l and m > n]
        chk("park", bool(rd) and bool(rel) and max(rd) < rel[0], "reads its outcome after recycling the registration")

    # ---------------------------------------------------------------- close
    def do_close():
        f = p.need("rt_chan_close")
        for q in walk(f, loops=1):
            s = Sum(q)
            chk, comm = common(f, q, s)
            lockset(f, q, s, chk)
            cl = s.val("closed")
            if cl is None:
                chk("close", False, "does not look whether the channel is already closed")
                continue
            if cl:
                chk("close", bool(s.throws) and not s.pops and not s.ready, "closing a closed channel must raise and change nothing")
                continue
            chk("close", not s.throws, "closing an open channel raises")
            chk("close", any(const(v) in (1, -1) for m, v in s.closed_st), "does not mark the channel closed")
            for which in ("recvq", "sendq"):
                chk("close", s.empty_at(which) is True, "ends without having emptied %s" % which)
            for n, which, ch, x in comm:
                vals = [v for m, l, v in s.succ if l == x]
                chk("close", bool(vals) and vals[-1] == 0, "a waiter woken by close is told it succeeded")
            first = [m for m, r in s.ready]
            if first:
                chk("close", s.closed_st and s.closed_st[0][0] < min(first), "wakes waiters before the channel is marked closed")

    # ---------------------------------------------------------------- select
    def do_select():
        f = p.need("rt_chan_select")
        lockfn = None
        for i in f.insts():
            if i.op == "call" and i.callee:
                g = p.resolve(f.tu, i.callee)
                if g and g.file.startswith("runtime/rt_chan") and any(x.callee in LOCKS for x in g.insts() if x.op == "call"):
                    lockfn = lockfn or (i, g)
        c.need(lockfn, "rt_chan_select: no helper that locks the channels of all cases")
        i0, lk = lockfn
        lockers = {g.name for g in p.unique(lambda g: g.file.startswith("runtime/rt_chan")) if any(x.callee in LOCKS for x in g.insts() if x.op == "call")
                   and g.name not in ("rt_chan_send", "rt_chan_recv", "rt_chan_close", "rt_chan_select", "rt_msg_transmit")
                   and not any(x.callee in UNLOCKS for x in g.insts() if x.op == "call")}
        unlockers = {g.name for g in p.unique(lambda g: g.file.startswith("runtime/rt_chan")) if any(x.callee in UNLOCKS for x in g.insts() if x.op == "call")
                     and all(x.callee in UNLOCKS or not x.callee or x.callee.startswith("llvm.") for x in g.insts() if x.op == "call") and len(g.argt) >= 3}
        helpers = lockers | unlockers
        c.need(lockers and unlockers, "select lock helpers not found")
        nonlocal removers
        removers = {g.name for g in p.unique(lambda g: g.file.startswith("runtime/rt_chan")) if len(g.argt) == 2 and "waitq_t" in repr(g.sig) and "linkco_t" in repr(g.sig)
                    and {"prev", "next"} <= read_of_arg(p, g)}
        paths = walk(f, start=i0, loops=1, mp=200000, extra=helpers | removers)
        nret = 0
        for q in paths:
            if any(e.k == "assume" and nullish(e) and strip_casts(truth_of(e)[0][2]) == ("a", 0) for e in q.ev):
                continue   # no cases array
            s = Sum(q)
            chk, comm = common(f, q, s, sel=True)
            nlock = [n for n, e in enumerate(q.ev) if e.k == "call" and e.name in lockers]
            nun = [n for n, e in enumerate(q.ev) if e.k == "call" and e.name in unlockers]
            yl = [n for n, e in s.yields]
            ret = strip_casts(s.ret)
            nret += 1
            # lock typestate
            held = 0
            seq = sorted([(n, 1) for n in nlock] + [(n, -1) for n in nun] + [(n, 0) for n in yl])
            okl = True
            for n, d in seq:
                if d == 0:
                    okl &= held == 1
                    held = 0
                else:
                    held += d
                    okl &= held in (0, 1)
            chk("under-lock", okl and held == 0, "select does not hold the channels' locks exactly once per pass")
            for n, e in enumerate(q.ev):
                if e.k in ("store", "load"):
                    a = strip_casts(e.addr)
                    if a[0] == "fld" and (a[2] == "n_chan_t" and a[3] in ("buf_front", "buf_rear") or qaddr(a)):
                        h = 0
                        for m, d in seq:
                            if m < n:
                                h = 0 if d == 0 else h + d
                        if h <= 0:
                            chk("under-lock", False, "select touches %s without the channels' locks" % a[3], e.loc)
                            break
            send_done = len([x for x in comm if x[1] == "recvq"])
            recv_done = len([x for x in comm if x[1] == "sendq"])
            if not yl:
                moved = send_done + recv_done
                if not moved:
                    moved += len(s.rear) + len(s.front)
                neg = const(ret) == -1
                if neg:
                    nothing_ready(chk, q, s, len(q.ev))
                    chk("select", not effects_now(s) , "reports the default case after committing to another case")
                    chk("select", any(k == "arg3" and t for m, k, ch, t in s.cond), "takes the default case in a blocking select")
                    continue
                closed = any(k == "closed" and t for m, k, ch, t in s.cond)
                chk("select", moved == (0 if closed and moved == 0 else 1), "commits to %d cases" % moved)
                sel_side(chk, q, s, comm, ret)
            else:
                n = yl[0]
                nothing_ready(chk, q, s, n)
                lo, hi = count_known(q, n)
                chk("select", lo == hi == len(s.pushes), "parks without registering every case (%d of %s)" % (len(s.pushes), hi))
                chk("select", not comm and not s.front and not s.rear, "a select that parks has already transferred a value")
                chk("select", any(k == "arg3" and t is False for m, k, ch, t in s.cond), "a try-select parks")
                for m, which, ch, l in s.pushes:
                    st = {}
                    for x in q.ev[:m + 1]:
                        if x.k == "store":
                            a = strip_casts(x.addr)
                            if a[0] == "fld" and a[2] == "linkco_t" and strip_casts(a[1]) == l:
                                st[a[3]] = strip_casts(x.val)
                    chk("select", "co" in st and st["co"] == strip_casts(q.ev[n].args[0]), "registers another coroutine than the one that parks")
                    linked = any(x.k == "store" and strip_casts(x.val) == l and (fld(x.addr, "waiting") is not None or fld(x.addr, "waitlink") is not None) for x in q.ev[:n])
                    chk("select", linked, "a registration is not kept in the coroutine's list of registrations")
                    chk("select", const(st.get("is_select", ("c", 0))) in (1, -1), "registers a select case as a plain operation")
                    chk("select", "data" in st and is_ld(st["data"], "msg_ptr"), "registers a select case without its message location")
                    chk("select", "chan" in st and st["chan"] == ch, "registers a select case with another channel than the one it queues on")
                    chk("select", in_lock_order(ch), "registers its cases in another order than the lock order: a channel used in several cases is released more than once")
                    side = case_side(q, m)
                    chk("select", side is None or (which == "sendq") == (side == "send"), "registers a %s case in %s" % (side, which))
                pass3(chk, q, s, n, ret)
                # flag re-armed under the locks
                rearm = [m for m, e in enumerate(q.ev) if m > n and (e.k in ("store", "rmw") or e.k == "call" and "atomic" in str(e.name))
                         and fld((e.addr if e.k != "call" else e.args[0]), "select_done") is not None]
                chk("select", bool(rearm), "does not re-arm the one-shot select flag after waking")
                if rearm:
                    chk("select", any(m < rearm[0] and m > n for m in nlock), "re-arms the select flag before the channels are locked again")
        c.notes.append("select: %d paths from the first lock" % nret)
        # pass 3: each registration is either the fired one or removed from its queue
        for g in (lk,):
            c.unit(g)
        lock_helper(lk)
        for u in sorted(unlockers):
            unlock_helper(p.need(u))
        # removal keeps the queue consistent
        do_remove()

    def nothing_ready(chk, q, s, end):
        """every case was found unable to proceed before select gives up or parks"""
        end = min([end] + [m for m, x in s.acq])
        lo, hi = count_known(q, end)
        chs = {}
        for n, k, ch, t in s.cond:
            if n < end and ch is not None and k in ("closed", "empty", "full", "nocap") or n < end and k.startswith("q-"):
                chs.setdefault(strip_all(unversion(ch)), []).append((n, k, t))
        chk("select", lo == hi == len(chs), "gives up after looking at %d of %s cases" % (len(chs), hi))
        for ch, l in chs.items():
            side = case_side(q, l[0][0])
            d = {k: t for n, k, t in l}
            if side == "recv":
                qe = s.empty_at("sendq", end, ch)
                chk("select", qe and d.get("empty") is True and d.get("closed") is False, "passes over a receive case that can proceed")
            elif side == "send":
                qe = s.empty_at("recvq", end, ch)
                chk("select", qe and (d.get("full") or d.get("nocap")) and d.get("closed") is False, "passes over a send case that can proceed")

    def pass3(chk, q, s, n, ret):
        """after waking: registrations are visited in registration order; the fired one determines the result, the others leave their queue"""
        regs = [case_index(ch) for m, which, ch, l in s.pushes]
        seen = []     # (node, fired?)
        for e in q.ev[n:]:
            if e.k == "assume":
                cc, t = truth_of(e)
                if cc[0] == "cmp" and cc[1] in ("eq", "ne"):
                    a, b = strip_casts(cc[2]), strip_casts(cc[3])
                    for x, y in ((a, b), (b, a)):
                        if is_ld(x, "data") and "coroutine_t" in repr(x) and y[0] == "ld" and fieldname(y) in ("waiting", "waitlink"):
                            seen.append((y, (cc[1] == "eq") == t))
        if len(regs) == len(seen) - 1:
            return    # list longer than registered: not a real history
        lo, hi = count_known(q, len(q.ev))
        if lo is not None and lo > len(regs):
            return
        if any(e.k == "assume" and nullish(e) and is_ld(truth_of(e)[0][2], "waiting") for e in q.ev[n:]):
            return
        chk("select", bool(seen), "does not look which registration fired")
        if len(seen) != len(regs):
            chk("select", bool(s.rel) and len(s.rel) == len(regs), "visits %d of %d registrations after waking" % (len(seen), len(regs)))
            return
        fired = [i for i, (x, y) in enumerate(seen) if y]
        rel = [x for m, x in s.rel]
        for i, (x, y) in enumerate(seen):
            chk("select", rel.count(x) == 1, "a registration is recycled %d times" % rel.count(x))
            if not y:
                rm = [e for e in q.ev[n:] if e.k == "call" and e.name in removers and strip_casts(e.args[1]) == x]
                rd = [e for e in q.ev[n:] if e.k == "load" and fld(e.addr, "prev") == x]
                chk("select", len(rm) == 1 or (not rm and rd), "a case that did not fire stays registered")
                if rm:
                    a = strip_casts(rm[0].args[0])
                    ok = a[0] == "fld" and a[2] == "n_chan_t"
                    which = s.pushes[i][1]
                    chk("select", ok and strip_all(unversion(a[1])) == strip_all(unversion(s.pushes[i][2])) and a[3] == which, "removes a registration from another queue than the one it waits on")
        if len(fired) == 1:
            r = strip_all(unversion(ret)) if ret is not None else None
            chk("select", r == strip_all(unversion(regs[fired[0]])), "returns another case than the one that fired")

    def case_side(q, m):
        """'send'/'recv' the path assumed for the case handled right before event m"""
        for e in reversed(q.ev[:m]):
            if e.k == "assume":
                cc, t = truth_of(e)
                if cc[0] == "cmp" and cc[1] in ("slt", "sge", "sle", "sgt") and ("a", 1) in [strip_casts(cc[2]), strip_casts(cc[3])]:
                    l, r = strip_casts(cc[2]), strip_casts(cc[3])
                    pred = cc[1]
                    if l == ("a", 1):
                        pred = SWAP[pred]
                    if pred in ("slt",):
                        return "send" if t else "recv"
                    if pred == "sge":
                        return "recv" if t else "send"
        return None

    def sel_side(chk, q, s, comm, ret):
        first = min([x[0] for x in comm] + [x[0] for x in s.front] + [x[0] for x in s.rear] + [10 ** 9])
        if first == 10 ** 9:
            return
        side = case_side(q, first)
        if any(x[1] == "recvq" for x in comm) or (not comm and s.rear):
            chk("select", side == "send", "a receive case sends")
            lastc = [t for m, k, ch, t in s.cond if k == "closed" and m < first]
            chk("closed-first", bool(lastc) and lastc[-1] is False, "a select send case transfers without finding the channel open")
        if any(x[1] == "sendq" for x in comm) or (not comm and s.front):
            chk("select", side == "recv", "a send case receives")

    def cover(g, calls, what):
        """over the cases in lock order, every run of equal channels is (un)locked exactly once"""
        for q in Walker(p, vn=True, loops=2).paths(g):
            if q.dead:
                continue
            ls = [strip_all(unversion(fld(e.args[0], "lock") or ("?",))) for e in q.calls(*calls)]
            # order positions visited: loads of cases[order[i]].chan
            pos, same = set(), set()
            for e in q.ev:
                if e.k == "load" and fld(e.addr, "chan") is not None:
                    pos.add(strip_all(unversion(e.res)))
                if e.k == "assume":
                    cc, t = truth_of(e)
                    if cc[0] == "cmp" and cc[1] in ("eq", "ne") and is_ld(cc[2], "chan") and is_ld(cc[3], "chan"):
                        if (cc[1] == "eq") == t:
                            same.add(frozenset((strip_all(unversion(cc[2])), strip_all(unversion(cc[3])))))
            if any(e.k == "assume" and nullish(e) and is_ld(truth_of(e)[0][2], "chan") for e in q.ev):
                continue    # no channel is null here
            c.check("select", g.name, set(ls) <= pos and len(ls) == len(set(ls)) and len(ls) == len(pos) - len(same) and all(len(x) == 2 for x in same), g.name, q.end_loc(),
                    "%s: %s" % (g.name, what), q.trace())
            lo = hi = None
            for e in q.ev:
                if e.k == "assume":
                    cc, t = truth_of(e)
                    if cc[0] == "cmp" and strip_casts(cc[2])[0] == "c" and strip_casts(cc[3])[0] != "c":
                        cc = ("cmp", SWAP.get(cc[1], cc[1]), cc[3], cc[2])
                    if cc[0] == "cmp" and ("a", 2) in linear(cc[2])[0] and const(cc[3]) is not None:
                        k = const(cc[3]) - linear(cc[2])[1]
                        pr = cc[1] if t else {"sgt": "sle", "sle": "sgt", "slt": "sge", "sge": "slt"}.get(cc[1], cc[1])
                        if pr == "sgt":
                            lo = max(lo or 0, k + 1)
                        elif pr == "sge":
                            lo = max(lo or 0, k)
                        elif pr == "sle":
                            hi = k if hi is None else min(hi, k)
                        elif pr == "slt":
                            hi = k - 1 if hi is None else min(hi, k - 1)
            if hi is not None:
                c.check("select", g.name + "/all", len(pos) == max(hi, 0) and (lo or 0) == max(hi, 0), g.name + "/all", q.end_loc(),
                        "%s: visits %d of %s cases" % (g.name, len(pos), hi), q.trace())

    def lock_helper(g):
        cover(g, LOCKS, "a case's channel is not locked exactly once")

    def unlock_helper(g):
        cover(g, UNLOCKS, "a case's channel is not released exactly once")

    def do_remove():
        rem = [g for g in p.unique(lambda g: g.file.startswith("runtime/rt_chan")) if len(g.argt) == 2 and "waitq_t" in repr(g.sig) and "linkco_t" in repr(g.sig)]
        for g in rem:
            for q in Walker(p, vn=True, loops=1, stores=STORES, inline=lambda f: inl(f)).paths(g):
                if q.dead:
                    continue
                x = y = h = None
                st = {}
                for e in q.ev:
                    if e.k == "assume":
                        cc, t = truth_of(e)
                        if cc[0] == "cmp" and cc[1] in ("eq", "ne"):
                            z = (cc[1] == "eq") == t
                            a, b = strip_casts(cc[2]), strip_casts(cc[3])
                            if const(b) == 0 and is_ld(a, "prev") and fld(a, "prev") == ("a", 1):
                                x = not z
                            if const(b) == 0 and is_ld(a, "next") and fld(a, "next") == ("a", 1):
                                y = not z
                            if {True} == {is_ld(u, "head") or u == ("a", 1) for u in (a, b)}:
                                h = z
                    if e.k == "store":
                        st[strip_all(unversion(e.addr))] = strip_all(unversion(e.val))
                if not any(e.k == "store" for e in q.ev) and h is None and x is None:
                    continue
                a0, a1 = ("a", 0), ("a", 1)
                names = {}
                for k, v in st.items():
                    if k[0] == "fld":
                        base = k[1]
                        bn = "q" if base == a0 else "l" if base == a1 else "prev" if is_l(base, "prev") else "next" if is_l(base, "next") else "?"
                        vn_ = "0" if v == ("c", 0) else "prev" if is_l(v, "prev") else "next" if is_l(v, "next") else "l" if v == a1 else "?"
                        names[(bn, k[3])] = vn_
                if any(k[0] == "q" for k in names) or x is not None:
                    # pushes also match the signature: recognise removal by reading prev/next of the argument
                    if x is None and y is None:
                        continue
                    want = None
                    if x and y:
                        want = names.get(("prev", "next")) == "next" and names.get(("next", "prev")) == "prev" and ("q", "head") not in names and ("q", "rear") not in names
                    elif x and y is False:
                        want = names.get(("prev", "next")) == "0" and names.get(("q", "rear")) == "prev" and ("q", "head") not in names
                    elif x is False and y:
                        want = names.get(("next", "prev")) == "0" and names.get(("q", "head")) == "next" and ("q", "rear") not in names
                    elif x is False and y is False:
                        if h is True:
                            want = names.get(("q", "head")) == "0" and names.get(("q", "rear")) == "0"
                        elif h is False:
                            want = not names or all(k[0] == "l" for k in names)
                    if want and (x or y):
                        want = (not x or names.get(("l", "prev")) == "0") and (not y or names.get(("l", "next")) == "0")
                    if want is not None:
                        c.check("queue-ops", g.name, want, "%s/%s%s" % (g.name, x, y), q.end_loc(), "%s: removing a waiter leaves the queue links inconsistent" % g.name, q.trace())

    def do_new():
        f = p.need("rt_chan_new")
        for q in walk(f):
            st = {strip_casts(e.addr)[3]: strip_casts(e.val) for e in q.ev if e.k == "store" and strip_casts(e.addr)[0] == "fld" and strip_casts(e.addr)[2] == "n_chan_t"}
            c.check("copy-exact", f.name, "msg_size" in st and is_ld(st["msg_size"], "storage_size") and "buf" in st, f.name, f.loc,
                    "rt_chan_new: message size or buffer not set from the element type")
            init = [e for e in q.calls("pthread_mutex_init") if fld(e.args[0], "lock") is not None]
            c.check("under-lock", f.name, len(init) == 1, f.name + "/init", f.loc, "rt_chan_new: channel lock not initialised")
            # both indices wrap at the same size: the requested one
            new = q.calls("rti_vec_new")
            if new:
                n, cap = [strip_casts(x) for x in new[0].args[-2:]]
                wrap = {k for g in p.unique(lambda g: g.file.startswith("runtime/rt_chan")) for i in g.insts() if i.op in ("urem", "srem", "icmp")
                        for o in i.ops[:2] for k in ("length", "capacity") if is_ld(static_expr(g, o), k)}
                c.check("ring", f.name, n == ("a", 2) and ("capacity" not in wrap or cap == n), f.name + "/size", new[0].loc,
                        "rt_chan_new: the buffer has another length or capacity than the size its indices wrap at")

    def do_status():
        f = p.need("rt_chan_is_closed")
        for q in walk(f):
            r = strip_casts(q.ev[-1].val)
            c.check("close", f.name, is_ld(r, "closed") or r[0] == "cmp" and is_ld(r[2], "closed"), f.name, f.loc, "rt_chan_is_closed does not report the closed flag")

    def do_commit():
        """park callback of select releases every distinct channel once"""
        f = p.need("rt_chan_select")
        for i in f.insts():
            if i.op == "call" and i.callee == "co_yield_waiting":
                g = fnname(static_expr(f, i.ops[1]))
                g = p.resolve(f.tu, g) if g else None
                c.need(g, "park callback of select not found")
                c.unit(g)
                for q in Walker(p, vn=True, loops=2, inline=inl).paths(g):
                    if q.dead:
                        continue
                    if any(e.k == "assume" and nullish(e) and is_ld(truth_of(e)[0][2], "chan") for e in q.ev):
                        continue
                    ch = [strip_casts(e.args[0]) for e in q.calls(*UNLOCKS)]
                    if not ch:
                        continue
                    # nodes visited and neighbouring nodes found to share their channel
                    nodes = {fld(e.addr, "chan") for e in q.ev if e.k == "load" and fld(e.addr, "chan") is not None}
                    same = {frozenset((truth_of(e)[0][2], truth_of(e)[0][3])) for e in q.ev if e.k == "assume" and truth_of(e)[0][0] == "cmp" and
                            is_ld(truth_of(e)[0][2], "chan") and is_ld(truth_of(e)[0][3], "chan") and truth_of(e)[0][1] in ("eq", "ne") and
                            ((truth_of(e)[0][1] == "eq") == truth_of(e)[1])}
                    c.check("select", g.name, len(ch) == len(set(ch)) and len(ch) == len(nodes) - len(same), g.name, q.end_loc(),
                            "%s: a parked select leaves a channel locked or releases one twice" % g.name, q.trace())
                    ret = q.ev[-1].val
                    c.check("select", g.name + "/ret", ret is None or const(ret) not in (0,), g.name + "/ret", q.end_loc(), "%s: refuses to park" % g.name)

    for fn in (do_send, do_recv, do_close, do_select, do_new, do_status, do_commit):
        c.section(fn)
    c.assumptions += ["the channel lock is a correct mutual exclusion lock", "rt_vec_element_addr/rti_vec_access address the element at the given index (decided under R01)"]


def read_of_arg(p, g):
    """fields of the second argument read by g"""
    r = set()
    for q in Walker(p, vn=True, loops=0).paths(g):
        if q.dead:
            continue
        for e in q.ev:
            if e.k == "load":
                for n in ("prev", "next"):
                    if fld(e.addr, n) == ("a", 1):
                        # a membership decision, not an assertion
                        if any(x.k == "assume" and fieldname(truth_of(x)[0][2] if truth_of(x)[0][0] == "cmp" else truth_of(x)[0]) == n and not nullish(x) for x in q.ev):
                            r.add(n)
    return r


def count_known(q, end):
    """bounds the path learned for the number of cases"""
    lo, hi = None, None
    for e in q.ev[:end]:
        if e.k != "assume":
            continue
        c, t = truth_of(e)
        if c[0] != "cmp":
            continue
        l, kl = linear(c[2])
        r, kr = linear(c[3])
        pr = c[1]
        if not l and r:
            l, kl, r, kr, pr = r, kr, l, kl, SWAP.get(pr, pr)
        if r or l != {("a", 1): 1, ("a", 2): 1}:
            continue
        k = kr - kl
        if not t:
            pr = {"sgt": "sle", "sle": "sgt", "slt": "sge", "sge": "slt", "eq": "ne", "ne": "eq"}.get(pr, pr)
        if pr == "sgt":
            lo = max(lo if lo is not None else k + 1, k + 1)
        elif pr == "sge":
            lo = max(lo if lo is not None else k, k)
        elif pr == "sle":
            hi = min(hi if hi is not None else k, k)
        elif pr == "slt":
            hi = min(hi if hi is not None else k - 1, k - 1)
        elif pr == "eq":
            lo = hi = k
    if lo is None:
        lo = 0
    return lo, hi


def case_index(ch):
    for x in subexprs(ch):
        if x[0] == "idx" and strip_casts(x[1]) == ("a", 0):
            return strip_casts(x[2])
    return ("c", 0)


def in_lock_order(ch):
    """the channel is that of cases[order[i]] for an index array kept by select"""
    for x in subexprs(ch):
        if x[0] == "idx" and strip_casts(x[1]) == ("a", 0):
            ix = strip_casts(x[2])
            return ix[0] == "ld" and any(y[0] == "call" for y in subexprs(ix[1]))
    return False


def is_l(e, name):
    return e[0] == "ld" and e[1][0] == "fld" and e[1][3] == name and e[1][1] == ("a", 1)


def fieldname(t):
    t = strip_casts(t)
    if t[0] == "ld" and strip_casts(t[1])[0] == "fld":
        return strip_casts(t[1])[3]
    return repr(t)[:40]


def nullish(e):
    c, t = truth_of(e)
    return c[0] == "cmp" and c[1] in ("eq", "ne") and const(c[3]) == 0 and ((c[1] == "eq") == t)


def effects_now(s):
    return bool(s.pops and any(True for _ in s.ready)) or bool(s.pushes or s.rear or s.front or s.yields or s.ready)


def elem_index(e):
    """index expression if e is the address of an element of the channel buffer"""
    e = strip_casts(e)
    if e[0] == "call" and e[1] in ("rt_vec_element_addr", "rti_vec_element_addr"):
        return strip_casts(e[4])
    return None


def owner_moved(q, m):
    """did the path find the waiter's stack moved out (shared stack owned by another coroutine)?"""
    r = None
    for e in q.ev[:m]:
        if e.k == "assume":
            c, t = truth_of(e)
            if c[0] == "cmp" and c[1] in ("eq", "ne") and (is_ld(c[2], "owner") or is_ld(c[3], "owner")):
                r = (c[1] == "ne") == t
    return r


main("R07", "Every path of send, receive, close and select (helpers inlined, barrier calls as stores) is turned into its effects on buffer, wait "
            "queues and waiters, and compared with the obligations of the channel protocol; wait-queue link updates are decided per path.", body)
