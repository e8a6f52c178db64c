"""Canonical case tables: a conditional expression as a reduced ordered decision diagram over comparisons of
unconditional terms, with unconditional terms at its leaves; don't-care values are removed by the guard."""
from . import expr as X
from .compare import Assume, Env, NeedSeed, P, Split
from .expr import FALSE, TRUE, B, E, band, bite, bnot, bor


class TooBig(Exception):
    pass


class D:
    """decision node; leaves have v == TOP and a value"""

    __slots__ = ("v", "lo", "hi", "id", "val")

    def __repr__(self):
        if self.v == TOP:
            return repr(self.val)
        return "{%s ? %r : %r}" % (X.showvar(self.v, 3), self.hi, self.lo)


TOP = 1 << 60
_nt, _lt = {}, {}
_n = [0]
LIMIT = 4000


_env = [None]
_rep = {}


def env():
    if _env[0] is None:
        _env[0] = Env(Assume(lambda n: False))
    return _env[0]


def rep(x):
    """one representative per class of equal unconditional real terms"""
    if x.op in ("c", "sym", "ld", "nan", "inf"):
        return x
    try:
        k = env().fp(x)
    except (Split, NeedSeed):
        return x
    return _rep.setdefault(k, x)


def leaf(x):
    if isinstance(x, E) and x.k == "f":
        x = rep(x)
    k = X._k(x)
    r = _lt.get(k)
    if r is None:
        r = D()
        r.v, r.lo, r.hi, r.val = TOP, None, None, x
        _n[0] += 1
        r.id = _n[0]
        _lt[k] = r
    return r


def node(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    r = _nt.get(k)
    if r is None:
        r = D()
        r.v, r.lo, r.hi, r.val = v, lo, hi, None
        _n[0] += 1
        r.id = _n[0]
        _nt[k] = r
    return r


def apply(f, args):
    memo = {}

    def go(ds):
        v = min(d.v for d in ds)
        if v == TOP:
            return leaf(f(*[d.val for d in ds]))
        k = tuple(d.id for d in ds)
        r = memo.get(k)
        if r is None:
            if len(memo) > LIMIT:
                raise TooBig
            r = node(v, go([d.lo if d.v == v else d for d in ds]), go([d.hi if d.v == v else d for d in ds]))
            memo[k] = r
        return r

    return go(args)


_ic = {}


def dite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ic.get(k)
    if r is None:
        v = min(c.v, a.v, b.v)
        c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
        a0, a1 = (a.lo, a.hi) if a.v == v else (a, a)
        b0, b1 = (b.lo, b.hi) if b.v == v else (b, b)
        r = node(v, dite(c0, a0, b0), dite(c1, a1, b1))
        _ic[k] = r
    return r


def tobool(d):
    """diagram with boolean leaves -> guard"""
    memo = {}

    def go(d):
        if d.v == TOP:
            return d.val
        r = memo.get(d.id)
        if r is None:
            x = X._bnode(d.v, FALSE, TRUE)
            r = memo[d.id] = bite(x, go(d.hi), go(d.lo))
        return r

    return go(d)


_em, _bm, _vm = {}, {}, {}



def term(x):
    """expression -> diagram"""
    if isinstance(x, int) or not isinstance(x, E):
        return leaf(x)
    r = _em.get(x.id)
    if r is not None:
        return r
    op = x.op
    if op == "ip":
        r = leaf(0)
        for mono, c in x.a:
            t = leaf(c)
            for at in mono:
                t = apply(X.imul, [t, atom(at)])
            r = apply(X.iadd, [r, t])
    elif op in ("c", "sym", "nan", "inf"):
        r = leaf(x)
    elif op == "ite":
        r = dite(guard(x.a[0]), term(x.a[1]), term(x.a[2]))
    elif op == "add":
        r = apply(X.fadd, [term(y) for y in x.a])
    elif op == "mul":
        r = apply(X.fmul, [term(y) for y in x.a])
    elif op == "div":
        r = apply(X.fdiv, [term(y) for y in x.a])
    elif op == "neg":
        r = apply(X.fneg, [term(x.a[0])])
    elif op == "i2f":
        r = apply(X.i2f, [term(x.a[0])])
    elif op == "fn":
        r = apply(lambda *a: X.fn(x.a[0], *a), [term(y) for y in x.a[1:]])
    else:
        r = apply(lambda *a: X.mk(op, a, x.k), [term(y) for y in x.a])
    _em[x.id] = r
    return r


def atom(at):
    if at.op == "sym":
        return leaf(X.ipoly_atom(at))
    if at.op == "ite":
        return dite(guard(at.a[0]), term(at.a[1]), term(at.a[2]))
    if at.op == "idiv":
        return apply(X.idiv, [term(y) for y in at.a])
    k = ("at", at.id)
    r = _em.get(k)
    if r is None:
        r = _em[k] = apply(lambda *a: X.ipoly_atom(X.mk(at.op, a, "i")), [term(y) for y in at.a])
    return r


def guard(b):
    if b.id < 2:
        return b
    r = _bm.get(b.id)
    if r is None:
        r = bite(var(b.v), guard(b.hi), guard(b.lo))
        _bm[b.id] = r
    return r


known = [None]  # decides comparisons from facts


def decide(b):
    return known[0](b) if known[0] is not None and b.id > 1 else b


_cp = {}


def compare(f, p, q):
    """one representative per class of comparisons of equal differences"""
    if p.op in ("c", "inf", "nan") and q.op in ("c", "inf", "nan") or p is q:
        return f(p, q)
    try:
        a, b = env().fp(p), env().fp(q)
    except (Split, NeedSeed):
        return f(p, q)
    d = tuple((y - x) % P for x, y in zip(a, b))
    if not any(d):
        return f(p, p)
    if d not in _cp:
        _cp[d] = (p, q)
        _cp[tuple(-x % P for x in d)] = (q, p)
    p, q = _cp[d]
    return f(p, q)


def var(i):
    r = _vm.get(i)
    if r is not None:
        return r
    d = X.VARS[i]
    if known[0] is not None and d[0] in ("IL", "IE"):
        b = known[0](X.bvar(d))
        if b.id < 2:
            _vm[i] = b
            return b
    if d[0] == "IL":
        r = tobool(apply(lambda p: decide(X.ilt0(p)), [term(d[1])]))
    elif d[0] == "IE":
        r = tobool(apply(lambda p: decide(X.ieq0(p)), [term(d[1])]))
    elif d[0] == "L":
        a, b = term(d[1]), term(d[2])
        r = tobool(apply(lambda p, q: compare(X._fl, p, q), [a, b]))
    elif d[0] == "E":
        a, b = term(d[1]), term(d[2])
        # the comparison "equal" is only consulted where "less" is false
        r = tobool(apply(lambda p, q: compare(X._fe, p, q), [a, b]))
    elif d[0] == "P" and isinstance(d[2], E):
        r = tobool(apply(lambda p: X.bvar((d[0], d[1], p)), [term(d[2])]))
    else:
        r = X.bvar(d)
    _vm[i] = r
    return r


_cm = {}


def under(d, c):
    """generalised cofactor: a diagram determined by the values of d where c holds (c is not FALSE)"""
    if c is TRUE or d.v == TOP:
        return d
    k = (d.id, c.id)
    r = _cm.get(k)
    if r is not None:
        return r
    v = min(d.v, c.v)
    d0, d1 = (d.lo, d.hi) if d.v == v else (d, d)
    c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
    if c0 is FALSE:
        r = under(d1, c1)
    elif c1 is FALSE:
        r = under(d0, c0)
    else:
        r = node(v, under(d0, c0), under(d1, c1))
    _cm[k] = r
    return r


_cb = {}


def cofactor(f, c):
    if c is TRUE or f.id < 2:
        return f
    k = (f.id, c.id)
    r = _cb.get(k)
    if r is not None:
        return r
    v = min(f.v, c.v)
    f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
    c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
    if c0 is FALSE:
        r = cofactor(f1, c1)
    elif c1 is FALSE:
        r = cofactor(f0, c0)
    else:
        r = X._bnode(v, cofactor(f0, c0), cofactor(f1, c1))
    _cb[k] = r
    return r


def isite(x):
    return isinstance(x, tuple) and len(x) == 4 and x[0] == "ite" and isinstance(x[1], B)


def struct(x, g):
    """canonical form, where the (canonical) guard g holds, of nested tuples of expressions, guards and ('ite', guard, x, y)"""
    return norm([(TRUE, x)], g)


def norm(cases, g):
    groups = {}
    todo = list(cases)
    while todo:
        c, x = todo.pop()
        if band(c, g) is FALSE:
            continue
        if isite(x):
            b = guard(x[1])
            todo.append((band(c, b), x[2]))
            todo.append((band(c, bnot(b)), x[3]))
        elif isinstance(x, E) or isinstance(x, int):
            groups.setdefault("0 value", []).append((c, x))
        elif isinstance(x, B):
            groups.setdefault("1 guard", []).append((c, x))
        elif isinstance(x, tuple):
            groups.setdefault("2 tuple %d" % len(x), []).append((c, x))
        else:
            groups.setdefault("3 %r" % (x,), []).append((c, x))
    out = []
    for shape in sorted(groups):
        lst = groups[shape]
        gc = FALSE
        for c, _ in lst:
            gc = bor(gc, c)
        gg = band(gc, g)
        if shape[0] == "0":
            d = None
            for c, x in lst:
                t = term(x)
                d = t if d is None else dite(c, t, d)
            d = under(d, gg)
            v = d.val if d.v == TOP else d
        elif shape[0] == "1":
            d = FALSE
            for c, x in lst:
                d = bor(d, band(c, guard(x)))
            v = cofactor(d, gg)
        elif shape[0] == "2":
            v = tuple(norm([(c, x[i]) for c, x in lst], gg) for i in range(len(lst[0][1])))
        else:
            v = lst[0][1]
        out.append((shape, cofactor(gc, g), v))
    if len(out) == 1:
        return out[0][2]
    return ("alternatives",) + tuple(out)
