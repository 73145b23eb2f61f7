"""Failure flow: assume one call failed, follow every continuation of the function, say what the function then reports.

The walk is an abstract interpretation over one function: values are constants, "nz" (known non-zero) or unknown; memory is a
map from syntactic address to such a value.  Conditions that the known values decide prune the other branch."""

NZ = "nz"       # some non-zero value
SHORT = "short"  # a count smaller than the one asked for
SIGNED = {"slt", "sle", "sgt", "sge"}


class Limit(Exception):
    pass


class Named:
    """the failure was singled out by its code"""
    op, callee = "named", None

    def __init__(s, t, code):
        s.loc, s.code, s.line = t.loc, code, t.line


class Flow:
    def __init__(s, prog, always=(), passes=None, noreturn=(), ret_of=None, max_states=6000):
        s.p, s.noreturn = prog, set(noreturn)
        s.always = always          # functions that return a failure on every path
        s.passes = passes or {}    # function -> index of the argument it returns
        s.ret_of = ret_of or {}    # call name -> fixed abstract result
        s.max = max_states
        s.callee = None            # hook: (function, call, argument values) -> result, or "stops"
        s.fields, s.watch, s.trace = {}, set(), set()
        s.fields, s.watch = {}, set()
        s._keys = {}
        s._live = {}
        s._ids, s._last, s._from = {}, {}, {}

    # ---- address keys: equal numbers for syntactically equal addresses
    def intern(s, k):
        n = s._ids.get(k)
        if n is None:
            n = s._ids[k] = len(s._ids)
            s._last[n] = k[-1] if k[0] == "gep" else None
        return n

    def key(s, fn, o, depth=0):
        if not isinstance(o, str):
            return s.intern(("k", str(o)))
        ck = (id(fn), o)
        r = s._keys.get(ck)
        if r is not None:
            return r
        s._keys[ck] = s.intern(("v", id(fn), o))
        r = ("v", id(fn), o)
        ins = fn.byid.get(o) if o[:1] == "%" else None
        if ins is not None and depth < 200:
            if ins.op == "gep":
                r = ("gep", s.key(fn, ins.ops[0], depth + 1)) + tuple(
                    (st[0], st[1], st[2]) if st[0] == "f" else
                    (st[0], s.key(fn, st[1], depth + 1), st[2]) for st in ins.x)
            elif ins.op == "load":
                r = ("ld", s.key(fn, ins.ops[0], depth + 1))
            elif ins.op in ("bitcast", "zext", "sext", "trunc", "inttoptr", "ptrtoint"):
                r = (ins.op, s.key(fn, ins.ops[0], depth + 1))
        s._keys[ck] = s.intern(r)
        return s._keys[ck]

    @staticmethod
    def const(o):
        if isinstance(o, (list, tuple)) and o and o[0] == "c":
            v, w = o[1], o[2] if len(o) > 2 else 64
            if w > 1 and v >= 1 << (w - 1):
                v -= 1 << w
            if w == 1:
                v &= 1
            return v
        return None

    def field(s, fn, o):
        g = fn.byid.get(o) if isinstance(o, str) else None
        if g is not None and g.op == "gep" and g.x and g.x[-1][0] == "f":
            return g.x[-1][1], g.x[-1][2]
        return 0

    def field(s, fn, o):
        g = fn.byid.get(o) if isinstance(o, str) else None
        if g is not None and g.op == "gep" and g.x and g.x[-1][0] == "f":
            return g.x[-1][1], g.x[-1][2]
        return 0

    # ---- liveness
    def live(s, fn):
        r = s._live.get(id(fn))
        if r:
            return r
        n = len(fn.blocks)
        use, dfn, phi_use, loads = [set() for _ in range(n)], [set() for _ in range(n)], {}, [set() for _ in range(n)]

        def names(o, out):
            if isinstance(o, str):
                if o[:1] in ("%", "a"):
                    out.add(o)
            elif isinstance(o, (list, tuple)) and o and o[0] != "c":
                for q in o:
                    names(q, out)

        for b, blk in enumerate(fn.blocks):
            for ins in blk:
                if ins.op == "phi":
                    for pb, o in ins.ops:
                        u = set()
                        names(o, u)
                        phi_use.setdefault(pb, set()).update(u)
                    dfn[b].add(ins.id)
                    continue
                u = set()
                for o in ins.ops:
                    names(o, u)
                if ins.op == "gep":
                    for st in ins.x:
                        if st[0] == "i":
                            names(st[1], u)
                use[b] |= u - dfn[b]
                dfn[b].add(ins.id)
                if ins.op == "load":
                    loads[b].add(s.key(fn, ins.ops[0]))
        lin, lout = [set(use[b]) for b in range(n)], [set() for _ in range(n)]
        ld = [set(x) for x in loads]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(phi_use.get(b, ()))
                l2 = set(loads[b])
                for t in fn.succ[b]:
                    o |= lin[t]
                    l2 |= ld[t]
                i = use[b] | (o - dfn[b])
                if i != lin[b] or l2 != ld[b]:
                    lin[b], ld[b], ch = i, l2, True
        # a condition stays interesting where it may be evaluated again
        s._live[id(fn)] = (lin, ld, [dfn[b] for b in range(n)])
        return s._live[id(fn)]

    def before(s, fn, start):
        """what the branches dominating `start` say: (condition -> truth), as environment and memory"""
        env, mem, facts = {}, {}, {}
        doms = fn.dom.get(start.bb, ())
        for b in sorted(doms):
            t = fn.blocks[b][-1]
            if b == start.bb or t.op != "br" or not t.ops or t.x[0] == t.x[1]:
                continue
            for k, truth in ((0, 1), (1, 0)):
                tb = t.x[k]
                if tb in doms and fn.pred[tb] == [b]:
                    s.assume(fn, t.ops[0], truth, env, mem)
                    if isinstance(t.ops[0], str):
                        facts[t.ops[0]] = (truth, s.leaves(fn, t.ops[0]))
        return env, mem, facts

    def loop_of(s, fn, b):
        k = (id(fn), b)
        if k not in s._from:
            after = set()
            for x in fn.succ[b]:
                after |= fn.reach(x)
            s._from[k] = after if b in after else set()
        return s._from[k]

    def leaves(s, fn, o):
        out, st, seen = set(), [o], set()
        while st:
            x = st.pop()
            if not isinstance(x, str) or x in seen:
                continue
            seen.add(x)
            ins = fn.byid.get(x)
            if ins is None:
                continue
            if ins.op in ("load", "call", "phi"):
                out.add(x)
            else:
                st += [q for q in ins.ops]
                if ins.op == "gep":
                    st += [q[1] for q in ins.x if q[0] == "i"]
        return frozenset(out)

    def enter(s, fn, args):
        """every continuation of fn from its entry with the given argument values; also the calls met"""
        env = {"a%d" % i: v for i, v in enumerate(args) if v is not None}
        return s.run(fn, None, None, env0=env), set(s.called)

    def run(s, fn, start, init, zero=(), env0=None):
        """start: instruction whose result is `init`; returns (kind, ins, value, trail) for every end of every continuation.
        kind: ret / exit / dead / zero (the quantity asked for was zero) / named (the failure was singled out by its code)"""
        seen, ends, work = set(), [], []
        lin, lds, _ = s.live(fn)
        called = s.called = set()
        if start is None:
            facts0, env = {}, env0
            work.append((0, 0, None, env0, {}, frozenset(), (), {}))
        else:
            env, mem0, facts0 = s.before(fn, start)
            env[start.id] = init
            again = s.loop_of(fn, start.bb)
            facts0 = {q: v for q, v in facts0.items() if fn.byid.get(q) is not None and fn.byid[q].bb in again}
            work.append((start.bb, start.i + 1, None, env, mem0, frozenset(facts0), (start,), {}))
        zero = set(zero)
        tested = set().union(*[v[1] for v in facts0.values()])
        n = 0
        while work:
            b, i0, prev, env, mem, facts, trail, same = work.pop()
            n += 1
            if n > s.max:
                x = Limit(fn.name)
                x.ends = ends
                raise x
            blk = fn.blocks[b]
            env, mem = dict(env), dict(mem)
            stop = False

            def val(o):
                c = s.const(o)
                if c is not None:
                    return c
                if isinstance(o, str):
                    return env.get(o)
                return None

            if i0 == 0:
                newv, src = {}, {}
                for ins in blk:
                    if ins.op != "phi":
                        break
                    for pb, o in ins.ops:
                        if pb == prev:
                            newv[ins.id] = val(o)
                            src[ins.id] = same.get(o, o) if isinstance(o, str) else None
                            break
                moved = {k for k in newv if src[k] != k}
                same = {k: r for k, r in same.items() if k not in newv and r not in moved}
                same.update({k: r for k, r in src.items() if r in tested and r != k and r not in moved})
                for k, v in newv.items():
                    if k in moved:
                        facts = frozenset(q for q in facts if k not in facts0[q][1])
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
                keep, kl = lin[b], lds[b]
                newid = set(newv)
                env = {k: v for k, v in env.items() if k in keep or k in newid}
                mem = {k: v for k, v in mem.items() if k in kl}
                sig = (b, frozenset(same.items()), frozenset(env.items()), frozenset(mem.items()), facts,
                       frozenset(t.callee for t in trail[1:] if t.op == "call") if s.trace else None)
                if sig in seen:
                    continue
                seen.add(sig)
            for ins in blk[i0:]:
                op = ins.op
                if op == "phi":
                    continue
                if ins is start:
                    ends.append(("retry", ins, None, trail))
                    stop = True
                    break
                r = None
                if op in ("load", "call") and facts:
                    facts = frozenset(q for q in facts if ins.id not in facts0[q][1])
                if op == "icmp":
                    r = s.cmp(ins.x, val(ins.ops[0]), val(ins.ops[1]), ins.ops)
                elif op in ("zext", "sext", "trunc", "bitcast", "freeze"):
                    r = val(ins.ops[0])
                    if op == "trunc" and isinstance(r, int) and ins.ty == "i1":
                        r &= 1
                    if op == "zext" and isinstance(r, int) and r < 0:
                        r = None
                elif op == "xor":
                    a, c = val(ins.ops[0]), val(ins.ops[1])
                    if ins.ty == "i1" and isinstance(a, int) and isinstance(c, int):
                        r = (a ^ c) & 1
                elif op in ("and", "or"):
                    a, c = val(ins.ops[0]), val(ins.ops[1])
                    if isinstance(a, int) and isinstance(c, int):
                        r = a & c if op == "and" else a | c
                    elif op == "and" and (a == 0 or c == 0):
                        r = 0
                    elif op == "or" and (isinstance(a, int) and a or isinstance(c, int) and c or NZ in (a, c)):
                        r = 1 if ins.ty == "i1" else NZ
                elif op == "sub" and val(ins.ops[0]) == 0:
                    r = val(ins.ops[1])
                    r = -r if isinstance(r, int) else r
                elif op == "select":
                    c = val(ins.ops[0])
                    if c in (0,):
                        r = val(ins.ops[2])
                    elif isinstance(c, int) or c == NZ:
                        r = val(ins.ops[1])
                    else:
                        a, d = val(ins.ops[1]), val(ins.ops[2])
                        r = a if a == d else (NZ if a not in (None, 0) and d not in (None, 0) and SHORT not in (a, d)
                                              else None)
                elif op == "load":
                    r = mem.get(s.key(fn, ins.ops[0]))
                    if r is None and s.fields:
                        r = s.fields.get(s.field(fn, ins.ops[0]))
                    if r is None and s.fields:
                        r = s.fields.get(s.field(fn, ins.ops[0]))
                elif op == "store":
                    k = s.key(fn, ins.ops[1])
                    v = val(ins.ops[0])
                    last = s._last[k]
                    for m in [m for m in mem if m == k or last and s._last[m] == last]:
                        del mem[m]
                    if v is not None:
                        mem[k] = v
                elif op == "call":
                    c = ins.callee
                    if c in s.noreturn:
                        a = val(ins.ops[0]) if ins.ops else None
                        ends.append(("exit" if c in ("exit", "_exit", "_Exit") else "dead", ins, a, trail))
                        stop = True
                        break
                    called.add(ins.id)
                    if c in s.trace:
                        trail = trail + (ins,)
                    known = s.callee(fn, ins, [val(a) for a in ins.ops]) if s.callee else None
                    if known == "stops":
                        ends.append(("dead", ins, None, trail))
                        stop = True
                        break
                    if c in s.always:
                        r = s.always[c]
                    elif known is not None:
                        r = known
                    elif c in s.passes and s.passes[c] < len(ins.ops):
                        r = val(ins.ops[s.passes[c]])
                    elif c in s.ret_of:
                        r = s.ret_of[c]
                    for a in ins.ops:
                        if isinstance(a, str):
                            ka = s.key(fn, a)
                            if ka in mem and not (c and c.startswith("llvm.lifetime")):
                                del mem[ka]
                elif op == "ret":
                    v = val(ins.ops[0]) if ins.ops else None
                    ends.append(("ret", ins, v, trail))
                    stop = True
                    break
                elif op == "unreachable":
                    ends.append(("dead", ins, None, trail))
                    stop = True
                    break
                if r is None and ins.id in facts:
                    r = facts0[ins.id][0]
                if r is None:
                    env.pop(ins.id, None)
                else:
                    env[ins.id] = r
            if stop:
                continue
            t = blk[-1]
            if t.op == "br":
                if t.ops:
                    c = val(t.ops[0])
                    if c is None or c == SHORT:
                        nxt = [(t.x[0], 1), (t.x[1], 0)]
                    else:
                        nxt = [(t.x[0 if c else 1], None)]
                else:
                    nxt = [(t.x[0], None)]
                for tb, assumed in nxt:
                    e2, m2 = env, mem
                    if assumed is not None:
                        e2, m2 = dict(env), dict(mem)
                        what = s.assume(fn, t.ops[0], assumed, e2, m2, s.watch or {None})
                        if zero and s.zeroed(fn, what, zero):
                            ends.append(("zero", t, None, trail))
                            continue
                        if start is not None and init == NZ and what and what[1] not in (0, NZ) and s.key(fn, what[0]) == s.key(fn, start.id):
                            trail = trail + (Named(t, what[1]),)
                    work.append((tb, 0, b, e2, m2, facts, trail if len(nxt) == 1 and not t.ops else trail + (t,), same))
            elif t.op == "switch":
                c = val(t.ops[0])
                tg = None
                if isinstance(c, int):
                    tg = next((x[1] for x in t.x[1:] if x[0] == c), t.x[0])
                    work.append((tg, 0, b, env, mem, facts, trail, same))
                else:
                    for x in [t.x[0]] + [x[1] for x in t.x[1:] if not (c == NZ and x[0] == 0)]:
                        work.append((x, 0, b, env, mem, facts, trail, same))
        return ends

    def assume(s, fn, o, truth, env, mem, mem_only=None):
        """remember what a branch says about the value it tests"""
        for _ in range(6):
            if not isinstance(o, str) or o[0] != "%":
                return
            env[o] = truth
            ins = fn.byid.get(o)
            if ins is None:
                return
            if ins.op == "xor" and s.const(ins.ops[1]) == 1:
                o, truth = ins.ops[0], truth ^ 1
                continue
            if ins.op in ("trunc", "zext"):
                o = ins.ops[0]
                continue
            if ins.op == "icmp" and ins.x in ("eq", "ne"):
                x, y = ins.ops[0], ins.ops[1]
                c = s.const(y)
                if c is None and isinstance(env.get(y) if isinstance(y, str) else None, int):
                    c = env[y]
                elif c is None and isinstance(env.get(x) if isinstance(x, str) else None, int):
                    x, c = y, env[x]
                if c is not None and isinstance(x, str):
                    eq = truth == (1 if ins.x == "eq" else 0)
                    if eq:
                        env[x] = c
                    elif c == 0:
                        env[x] = NZ
                    else:
                        return
                    what = (x, env[x])
                    li = fn.byid.get(x)
                    if li is not None and li.op == "load" and (not mem_only or s.field(fn, li.ops[0]) in mem_only):
                        mem[s.key(fn, li.ops[0])] = env[x]
                    if li is not None and li.op in ("zext", "sext"):
                        o, truth = li.ops[0], (1 if env[x] in (1, NZ) else 0)
                        if env[x] in (0, 1) or env[x] == NZ and li.op == "zext":
                            continue
                    return what
            return None

    def zeroed(s, fn, what, zero):
        return what is not None and what[1] == 0 and s.key(fn, what[0]) in zero

    def amounts(s, fn, ins):
        """address keys of the quantities an allocation call multiplies into its size"""
        out, st, seen = set(), list(ins.ops), set()
        while st:
            o = st.pop()
            if not isinstance(o, str) or o in seen:
                continue
            seen.add(o)
            out.add(s.key(fn, o))
            d = fn.byid.get(o)
            if d is not None and d.op in ("mul", "zext", "sext", "trunc", "shl"):
                st += d.ops
            elif d is not None and d.op == "phi":
                st += [x[1] for x in d.ops]
            elif d is not None and d.op == "select":
                st += d.ops[1:]
        return out

    def cmp(s, pred, a, b, ops):
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred in SIGNED:
                return int({"slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred])
            m = (1 << 64) - 1
            a, b = a & m, b & m
            return int({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])
        if a == NZ and b == 0 or b == NZ and a == 0:
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            if a == NZ and pred in ("ugt",):
                return 1
        if SHORT in (a, b):
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            if a == SHORT and pred in ("ult", "slt") or b == SHORT and pred in ("ugt", "sgt"):
                return 1
            if a == SHORT and pred in ("uge", "sge") or b == SHORT and pred in ("ule", "sle"):
                return 0
        return None
