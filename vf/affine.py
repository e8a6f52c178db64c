"""Emptiness of a conjunction of integer affine inequalities (the polyhedral domain), by rational Fourier-Motzkin
elimination over the monomials that occur.  Only ever answers "empty" when the conjunction has no solution."""
from math import gcd

from . import expr as X
from .expr import E


def norm(c):
    """{monomial: coeff}, constant under () ; sum >= 0 over the integers: divide by the gcd, round the constant down"""
    g = 0
    for m, v in c.items():
        if m != ():
            g = gcd(g, abs(v))
    if g > 1:
        k = c.get((), 0)
        c = {m: v // g for m, v in c.items() if m != ()}
        k = k // g
        if k:
            c[()] = k
    return c


def resolve(x, truth, depth=0):
    """polynomial with the case distinctions of the current path removed"""
    if isinstance(x, int):
        return {(): x} if x else {}
    if x.op != "ip":
        return {(x,): 1}
    out = {}
    for m, c in x.a:
        if len(m) == 1 and m[0].op == "ite" and depth < 40:
            at = m[0]
            t = truth(at.a[0])
            if t is not None:
                for m2, c2 in resolve(at.a[1] if t else at.a[2], truth, depth + 1).items():
                    out[m2] = out.get(m2, 0) + c * c2
                continue
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def empty(cons, limit=400):
    """cons: list of {monomial: int}, each meaning sum >= 0"""
    work = {}
    for c in cons:
        c = norm(c)
        if not c or set(c) == {()}:
            if c.get((), 0) < 0:
                return True
            continue
        work[frozenset(c.items())] = c
    while work:
        cnt = {}
        for c in work.values():
            for m, v in c.items():
                if m != ():
                    p = cnt.setdefault(m, [0, 0])
                    p[v > 0] += 1
        m = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1])
        pos = [c for c in work.values() if c.get(m, 0) > 0]
        neg = [c for c in work.values() if c.get(m, 0) < 0]
        work = {k: c for k, c in work.items() if m not in c}
        for p in pos:
            for n in neg:
                a, b = p[m], -n[m]
                r = {}
                for k, v in p.items():
                    r[k] = r.get(k, 0) + b * v
                for k, v in n.items():
                    r[k] = r.get(k, 0) + a * v
                r = norm({k: v for k, v in r.items() if v})
                if not r or set(r) == {()}:
                    if r.get((), 0) < 0:
                        return True
                    continue
                work[frozenset(r.items())] = r
        if len(work) > limit:
            return False
    return False


def infeasible(dec, truth, signs_of):
    """dec: [(a, b, signs, isint)] of the current path"""
    cons, core = [], []
    for a, b, signs, isint, base in dec:
        if not isint or not isinstance(a, (int, E)) or not isinstance(b, (int, E)):
            continue
        d = resolve(X.isub(a, b), truth)
        s = signs_of(a, b, signs)
        if not s:
            return True
        if s <= {-1, 0}:
            d = {m: -v for m, v in d.items()}
            s = {-v for v in s}
        if -1 in s:
            continue
        cs = []
        if s == {1}:
            e = dict(d)
            e[()] = e.get((), 0) - 1
            cs.append(e)
        else:
            cs.append(d)
            if s == {0}:
                cs.append({m: -v for m, v in d.items()})
        for c in cs:
            cons.append(c)
            core.append(not base)
    # facts that share no quantity with the decisions cannot make them contradictory on their own
    use = [c for c, k in zip(cons, core) if k]
    if not use:
        use = cons
    else:
        vs = {m for c in use for m in c if m != ()}
        for _ in range(2):
            more = [c for c, k in zip(cons, core) if not k and any(m in vs for m in c if m != ())]
            vs |= {m for c in more for m in c if m != ()}
        use = use + more
    return empty(use)
