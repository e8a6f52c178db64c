"""Independence of the iterations of a kernel: for every element written by an iteration and every access to the same
array, the two indices can only be equal for the same iteration."""
from . import expr as X
from .eval import Entry, Kern, Loop, atom_of
from .expr import FALSE, TRUE, band, bnot, bor
from .models import Ob


def scope(k, ctx):
    """(symbol, first, last + 1) of the kernel and of the loops inside it"""
    q = [(s, lo, hi) for s, (lo, hi) in zip(k.syms, k.dom)]
    if k in ctx:
        for c in ctx[ctx.index(k) + 1:]:
            if isinstance(c, Loop):
                q.append((c.sym, c.lo, c.hi))
    return q


def key(x):
    return x.id if hasattr(x, "id") else x


def conflicts(ev, k):
    """obligations: one for every pair of accesses that could meet"""
    seen = set()
    out = []
    pairs = 0
    for w in k.writes:
        for a in [x[:4] + (x[4],) for x in k.reads] + [x[:4] + (x[5],) for x in k.writes]:
            if a[0] is not w[0]:
                continue
            kk = (w[0], tuple(map(key, w[1])), key(w[2]), tuple(map(key, a[1])), key(a[2]))
            if kk in seen:
                continue
            seen.add(kk)
            pairs += 1
            r = meet(ev, k, w, a)
            if r is not None:
                out.append(r)
    return pairs, out


def meet(ev, k, w, a):
    base, idx, g, where = w[:4]
    mine = scope(k, w[5])
    m = {}
    for n, (s, lo, hi) in enumerate(mine):
        m[atom_of(s).id] = X.sym("other%d_%d" % (k.id, n), "i")
    save, memo = list(ev.facts), ev.fmemo
    try:
        ev.fmemo = {}
        for s, lo, hi in mine:
            t = m[atom_of(s).id]
            if lo is not None:
                ev.fact(X.isub(t, X.subst(lo, m)))
            if hi is not None:
                ev.fact(X.isub(X.isub(X.subst(hi, m), t), 1))
        e = Entry()
        e.idx, e.val, e.g, e.src, e.lim = a[1], None, a[2], None, None
        e.quant = []
        e.ctx = ()
        q = scope(k, a[4])
        target = tuple(X.subst(i, m) for i in idx)
        r = ev.match(e, target, TRUE, q)
        if r is None:
            return None
        cond, sub, free = r
        other = FALSE
        for s, (lo, hi) in zip(k.syms, k.dom):
            i = atom_of(s).id
            if i in free:
                other = bor(other, X.icmp("sgt", X.isub(hi, lo), 1))
            else:
                other = bor(other, bnot(X.icmp("eq", sub[i], m[i])))
        cond = ev.simpb(band(band(cond, other), X.bsubst(g, m, {})))
        if cond is FALSE:
            return None
        kind = "write" if a in k.writes else "access"
        what = "kernel %s: two iterations use the same element of %s, one of them writes it: %s at %s and %s at %s" % (
            k.label, base.name, [X.show(x) for x in idx], where, [X.show(x) for x in a[1]], a[3])
        return Ob(what, cond, FALSE, TRUE, where, "bool", list(ev.facts))
    finally:
        ev.facts, ev.fmemo = save, memo
