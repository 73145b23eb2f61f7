"""Linear facts of a path: inequalities collected from its branch conditions, and a small entailment test."""
from itertools import combinations
from util import *


def form(e):
    """(terms, constant) of an expression with loads and calls identified by what they read"""
    return linear(unversion(strip_all(e)))


def sub(a, b):
    r = dict(a[0])
    for t, k in b[0].items():
        r[t] = r.get(t, 0) - k
        if not r[t]:
            del r[t]
    return r, a[1] - b[1]


def add(a, b):
    return sub(a, ({t: -k for t, k in b[0].items()}, -b[1]))


def num(n):
    return {}, n


class Facts:
    """conjunction of  form >= 0"""

    def __init__(s, nonneg=lambda t: False):
        s.ge = []
        s.ne = []
        s.nonneg = nonneg

    def add(s, f):
        if f not in s.ge:
            s.ge.append(f)

    def assume(s, pr, l, r):
        l, r = form(l), form(r)
        if pr == "eq":
            s.add(sub(l, r))
            s.add(sub(r, l))
        elif pr in ("slt", "ult"):
            s.add(sub(sub(r, l), num(1)))
        elif pr in ("sle", "ule"):
            s.add(sub(r, l))
        elif pr in ("sgt", "ugt"):
            s.add(sub(sub(l, r), num(1)))
        elif pr in ("sge", "uge"):
            s.add(sub(l, r))
        elif pr == "ne":
            s.ne.append(sub(l, r))
        # an unsigned comparison below a non-negative value bounds from below as well
        if pr in ("ult", "ule") and s.pos(r):
            s.add(l)
        if pr in ("ugt", "uge") and s.pos(l):
            s.add(r)

    def pos(s, f):
        return f[1] >= 0 and all(k > 0 and s.nonneg(t) for t, k in f[0].items())

    def holds(s, goal, depth=3):
        """goal >= 0 follows from the collected facts"""
        while s.ne and depth:
            # different and ordered: strictly ordered
            f = s.ne.pop()
            g = ({t: -k for t, k in f[0].items()}, -f[1])
            ne, s.ne = s.ne, []
            for x in (f, g):
                if s.holds(x, 2):
                    s.add(sub(x, num(1)))
            s.ne = ne
        if s.pos(goal):
            return True
        rel = [f for f in s.ge if f[0]]
        for d in range(1, depth + 1):
            for sub_ in combinations(rel, d):
                g = goal
                for f in sub_:
                    g = sub(g, f)
                if s.pos(g):
                    return True
        return False

    def contradictory(s):
        return any(not f[0] and f[1] < 0 for f in s.ge) or s.holds(num(-1), 3)


def path_facts(q, upto=None, nonneg=lambda t: False):
    fs = Facts(nonneg)
    for pr, l, r, e in known(q, upto):
        fs.assume(pr, l, r)
    return fs
