"""Exact decision of obligations whose predicates are linear inequalities in one integer: the truth value is constant
between the breakpoints of the predicates, so one representative of every region decides it."""
import random

from . import expr as X
from .expr import FALSE, TRUE


class NotOne(Exception):
    pass


def lin(p):
    """p = c*t + d with a single atom  ->  (atom, c, d)"""
    at, c, d = None, 0, 0
    for mono, k in p.a:
        if mono == ():
            d = k
        elif len(mono) == 1 and at is None:
            at, c = mono[0], k
        else:
            return None
    return at, c, d


def wrapatoms(p):
    return {x.id for mono, k in p.a for x in mono if x.op.startswith("wrap")}


def preds(roots):
    out, seen, todo = [], set(), [r for r in roots]
    while todo:
        n = todo.pop()
        if n.id < 2 or n.id in seen:
            continue
        seen.add(n.id)
        out.append(n.v)
        todo += [n.lo, n.hi]
    return set(out)


def decide(a, b, g, facts):
    """None if a == b wherever g and the facts (>= 0) hold, else a text with the value of the integer"""
    atom = None
    pts = set()
    wraps = set()
    ls = []
    for v in preds([a, b, g]):
        d = X.VARS[v]
        if d[0] not in ("IL", "IE"):
            raise NotOne()
        l = lin(d[1])
        if l is None or (l[0] is not None and l[0].op.startswith("wrap")):
            wraps.update(wrapatoms(d[1]))
            continue
        ls.append(l)
    for f in facts:
        l = lin(f) if not isinstance(f, int) else (None, 0, f)
        if l is None:
            raise NotOne()
        ls.append(l)
    for at, c, d in ls:
        if at is None:
            continue
        if atom is None:
            atom = at
        if at is not atom:
            raise NotOne()
        q = -d // c
        pts |= {q - 1, q, q + 1, q + 2}
    if atom is None:
        pts = {0}
    if wraps:
        # reductions modulo 2^w: the representatives of every residue pattern used by the fundamental types
        for k in (7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63):
            for m in (1, 2, 3, 5):
                for e in (-2, -1, 0, 1, 2):
                    pts |= {m * (1 << k) + e, -m * (1 << k) + e}
        rnd = random.Random(7)
        pts |= {rnd.randrange(-(1 << w), 1 << w) for w in (8, 9, 16, 17, 24, 32, 33, 48, 63, 64) for _ in range(40)}

    def val(p, t):
        s = 0
        for mono, k in p.a:
            for x in mono:
                k *= atval(x, t)
            s += k
        return s

    def atval(x, t):
        if x is atom:
            return t
        if x.op.startswith("wrap"):
            w = int(x.op[4:])
            v = x.a[0] if isinstance(x.a[0], int) else val(x.a[0], t)
            return (v + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
        raise NotOne()

    def ev(n, t):
        while n.id > 1:
            d = X.VARS[n.v]
            x = val(d[1], t)
            n = n.hi if (x < 0 if d[0] == "IL" else x == 0) else n.lo
        return n is TRUE

    for t in sorted(pts):
        ok = True
        for f in facts:
            l = lin(f) if not isinstance(f, int) else (None, 0, f)
            if (l[1] * t if l[0] is not None else 0) + l[2] < 0:
                ok = False
        if not ok or not ev(g, t):
            continue
        if ev(a, t) != ev(b, t):
            return "%s = %d" % (X.show(atom) if atom is not None else "always", t)
    return None
