"""Equality up to rounding of literal constants: sums of products over atoms, coefficients compared with a relative
tolerance."""
import math

from .expr import E

TOL = 1e-9


class No(Exception):
    pass


def key(d):
    return tuple(sorted((m, "%.8e" % c) for m, c in d.items() if c))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0.0) + c * d
    if len(r) > 4000:
        raise No
    return r


def expand(x, truth, memo):
    if isinstance(x, int):
        return {(): float(x)}
    r = memo.get(x.id)
    if r is None:
        r = memo[x.id] = _expand(x, truth, memo)
    return r


def _expand(x, truth, memo):
    o = x.op
    if o == "c":
        return {(): float(x.a[0])}
    if o in ("add", "mul"):
        a, b = expand(x.a[0], truth, memo), expand(x.a[1], truth, memo)
        if o == "mul":
            return mul(a, b)
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0.0) + c
        return r
    if o == "neg":
        return {m: -c for m, c in expand(x.a[0], truth, memo).items()}
    if o == "div":
        a, b = expand(x.a[0], truth, memo), expand(x.a[1], truth, memo)
        if len(b) == 1:
            (m, c), = b.items()
            if m == () and c:
                return {k: v / c for k, v in a.items()}
        return mul(a, {(("inv", key(b)),): 1.0})
    if o == "ite":
        return expand(x.a[1] if truth(x.a[0]) else x.a[2], truth, memo)
    if o == "i2f":
        return expand(x.a[0], truth, memo)
    if o == "ip":
        r = {}
        for m, c in x.a:
            t = {(): float(c)}
            for at in m:
                t = mul(t, expand(at, truth, memo))
            for k, v in t.items():
                r[k] = r.get(k, 0.0) + v
        return r
    if o == "sym":
        if x.a[0] == "PI":
            return {(): math.pi}
        return {(("sym", str(x.a[0])),): 1.0}
    if o in ("ld", "fn"):
        return {((o, repr(x.a[0])) + tuple(key(expand(y, truth, memo)) for y in x.a[1:]),): 1.0}
    raise No


def agree(a, b, truth):
    memo = {}
    try:
        u, v = expand(a, truth, memo), expand(b, truth, memo)
    except No:
        return False
    for m in set(u) | set(v):
        p, q = u.get(m, 0.0), v.get(m, 0.0)
        if abs(p - q) > TOL * max(abs(p), abs(q)):
            return False
    return True
