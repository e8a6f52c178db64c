"""Meaning of the external operations: Kokkos (hv_*), libm, memory, strings, streams, checker intrinsics."""
import re

from . import expr as X
from .eval import (HOOK, DEAD, NULL, UNDEF, Agg, Base, Entry, Kern, Mem, Obj, Opaque, PIte, Ptr, Str, Unsupported, View, atom_of, showterm, vite, same, tysize)
from .expr import FALSE, TRUE, B, E, band, bnot, bor, isconst

TABLE = {}
REGEX = []


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f

    return d


def rx(p):
    def d(f):
        REGEX.append((re.compile(p), f))
        return f

    return d


# ----------------------------------------------------------------------------- Kokkos views


def over(f):
    """lift a function of a single handle over merged handles"""

    def g(ev, st, args, I, fn):
        h = args[0]
        if isinstance(h, PIte):
            c = X.constrain(h.c, st.g)
            if c is TRUE:
                return g(ev, st, [h.a] + args[1:], I, fn)
            if c is FALSE:
                return g(ev, st, [h.b] + args[1:], I, fn)
            return vite(c, g(ev, st, [h.a] + args[1:], I, fn), g(ev, st, [h.b] + args[1:], I, fn))
        return f(ev, st, args, I, fn)

    return g


@model("hv_view_null")
def _(ev, st, a, I, f):
    return NULL


@model("hv_view_alloc")
def _(ev, st, a, I, f):
    lab = ev.cstr(st, a[0])
    rank = a[1]
    ext = tuple(a[2:2 + rank])
    nm = "%s#%d" % (lab if isinstance(lab, str) else "view", ev.bump())
    b = Base(nm, rank, ext, ("sym", nm) if ev.hooks.get("anycontents") else ("zero",), lab)
    ev.bases.append(b)
    ev.event(st, "view_alloc", (b,))
    return ev.mkview(View(b, tuple(("d", r, 0) for r in range(rank)), rank, ext), nm)


@model("hv_view_mirror")
@over
def _(ev, st, a, I, f):
    if a[0].o.kind == "null":
        return NULL
    v = ev.view_of(a[0])
    if v.rank is None:
        # rank unknown yet: derive the mirror from the name
        return Ptr(ev.symobj("mirror(%s)" % a[0].o.name), 0)
    nm = "mirror(%s)#%d" % (v.base.name, ev.bump())
    b = Base(nm, v.rank, v.ext, ("sym", nm) if ev.hooks.get("anycontents") else ("zero",), v.base.label)
    ev.bases.append(b)
    ev.event(st, "view_alloc", (b,))
    return ev.mkview(View(b, tuple(("d", r, 0) for r in range(v.rank)), v.rank, v.ext), nm)


@model("hv_view_elem")
@over
def _(ev, st, a, I, f):
    if a[0].o.kind == "null":
        ev.event(st, "null_view_access", ())
        return Ptr(ev.symobj("nullview"), 0)
    v = ev.view_of(a[0], a[1])
    idx = tuple(ev.asint(i) for i in a[2:2 + a[1]])
    h = ev.hooks.get("elem")
    if h:
        h(ev, st, v, idx)
    return ev.elem(v.base, v.map(idx))


@model("hv_view_extent")
@over
def _(ev, st, a, I, f):
    if a[0].o.kind == "null":
        return 0
    v = ev.view_of(a[0])
    r = a[1]
    if not isconst(r):
        raise Unsupported("symbolic dimension in extent()")
    if v.ext is None:
        return ev.symext(v.base, r)
    return v.ext[r] if r < len(v.ext) else 1


@model("hv_view_size", "hv_view_span")
@over
def _(ev, st, a, I, f):
    if a[0].o.kind == "null":
        return 0
    v = ev.view_of(a[0])
    if v.ext is None:
        return X.sym("size(%s)" % v.base.name, "i")
    n = 1
    for e in v.ext:
        n = X.imul(n, e)
    return n


@model("hv_view_stride")
@over
def _(ev, st, a, I, f):
    v = ev.view_of(a[0])
    n = 1
    for r in range(a[1]):
        n = X.imul(n, v.ext[r])
    return n


@model("hv_view_contig")
def _(ev, st, a, I, f):
    return X.bvar(("P", "contiguous", X.sym("contig")))


@model("hv_view_allocated")
@over
def _(ev, st, a, I, f):
    return FALSE if a[0].o.kind == "null" else TRUE


@model("hv_view_label")
@over
def _(ev, st, a, I, f):
    v = ev.view_of(a[0])
    lab = v.base.label
    return ev.mkcstr(lab if isinstance(lab, (str, tuple)) else ("label", v.base.name))


@model("hv_view_data")
@over
def _(ev, st, a, I, f):
    if a[0].o.kind == "null":
        return NULL
    v = ev.view_of(a[0])
    return dataptr(ev, v)


def dataptr(ev, v):
    key = ("data", v.base, tuple(ev_key(d) for d in v.dims) if v.dims is not None else None)
    o = ev.elems.get(key)
    if o is None:
        o = Obj("data", "data(%s)" % v.base.name, None, v)
        ev.elems[key] = o
    return Ptr(o, 0)


def ev_key(d):
    return tuple(x if isinstance(x, (int, str)) else ("e", x.id) for x in d)


@model("hv_subview")
@over
def _(ev, st, a, I, f):
    n = a[1]
    if a[0].o.kind == "null":
        return NULL
    v = ev.view_of(a[0], n)
    spec = []
    ext = []
    j = 0
    for d in range(n):
        k, lo, hi = a[2 + 3 * d: 5 + 3 * d]
        if k == 0:
            spec.append(("d", j, 0))
            ext.append(v.ext[d])
            j += 1
        elif k == 1:
            spec.append(("d", j, lo))
            ext.append(X.isub(hi, lo))
            j += 1
        else:
            spec.append(("f", lo))
    dims = []
    for d in v.dims:
        if d[0] == "f":
            dims.append(d)
        else:
            s = spec[d[1]]
            if s[0] == "f":
                dims.append(("f", X.iadd(s[1], d[2])))
            else:
                dims.append(("d", s[1], X.iadd(s[2], d[2])))
    ev.event(st, "subview", (v, tuple(spec), tuple(ext)))
    if "subview" in ev.hooks:
        ev.hooks["subview"](st, v, spec, ext)
    return ev.mkview(View(v.base, tuple(dims), j, tuple(ext)), "sub(%s)#%d" % (v.base.name, ev.bump()))


def copy_entry(ev, st, dst, val=None, src=None, ext=None):
    e = Entry()
    r = dst.rank
    ds = [ev.new("d", "i") for _ in range(r)]
    e.idx = dst.map(tuple(ds))
    e.g = st.g
    e.ctx = tuple(ev.ctx)
    e.kern = None
    e.where = ev.where()
    e.quant = [(ds[k], 0, (ext or dst.ext)[k]) for k in range(r)]
    e.val = val
    e.src = None
    e.lim = None
    if src is not None:
        e.src = (src.base, src.map(tuple(ds)))
        e.lim = len(ev.hist.get(src.base, ()))
    ev.push(dst.base, e)


@model("hv_deep_copy")
def _(ev, st, a, I, f):
    def go(d, s, g):
        if isinstance(d, PIte):
            for c, x in ((d.c, d.a), (bnot(d.c), d.b)):
                if band(g, c) is not FALSE:
                    go(x, s, band(g, c))
            return
        if isinstance(s, PIte):
            for c, x in ((s.c, s.a), (bnot(s.c), s.b)):
                if band(g, c) is not FALSE:
                    go(d, x, band(g, c))
            return
        if d.o.kind == "null" or s.o.kind == "null":
            ev.event(st, "deep_copy_null", (d, s))
            return
        vd, vs = ev.view_of(d), ev.view_of(s)
        if vd.rank is None and vs.rank is not None:
            vd = ev.view_of(d, vs.rank)
        if vs.rank is None and vd.rank is not None:
            vs = ev.view_of(s, vd.rank)
        if vd.rank is None:
            raise Unsupported("deep_copy between views of unknown rank")
        save = st.g
        st.g = g
        ev.event(st, "deep_copy", (vd, vs))
        if "copy" in ev.hooks:
            ev.hooks["copy"](st, vd, vs)
        if ev.hooks.get("nocontents"):
            return
        copy_entry(ev, st, vd, src=vs)
        st.g = save

    go(a[0], a[1], st.g)
    return UNDEF


@model("hv_deep_copy_scalar")
def _(ev, st, a, I, f):
    vd = ev.view_of(a[0])
    ev.event(st, "deep_copy_scalar", (vd, a[1]))
    copy_entry(ev, st, vd, val=a[1])
    return UNDEF


# ----------------------------------------------------------------------------- Kokkos kernels


@model("hv_kernel_begin")
def _(ev, st, a, I, f):
    k = Kern()
    k.label = ev.cstr(st, a[0])
    k.kind = a[1]
    rank = a[2]
    ev.kcount += 1
    k.id = ev.kcount
    k.syms = [X.sym("k%d_%d" % (k.id, d), "i") for d in range(rank)]
    k.dom = [(a[3 + 2 * d], a[4 + 2 * d]) for d in range(rank)]
    k.g = st.g
    k.reads, k.writes = [], []
    k.where = ev.where()
    k.fn = [fr[0].dem for fr in ev.stack]
    k.reds = {}
    k.writes_mem = []
    ev.event(st, "kernel", (k,))
    ev.ctx.append(k)
    ev.kernels.append(k)
    for s, (lo, hi) in zip(k.syms, k.dom):
        ev.fact(X.isub(s, lo))
        ev.fact(X.isub(X.isub(hi, s), 1))
    return UNDEF


@model("hv_kernel_index")
def _(ev, st, a, I, f):
    return ev.kern().syms[a[0]]


@model("hv_kernel_end")
def _(ev, st, a, I, f):
    k = ev.kern()
    if "kernel_end" in ev.hooks:
        ev.hooks["kernel_end"](ev, k)
    ev.ctx.remove(k)
    # drop the domain facts of this kernel
    ids = {atom_of(s).id for s in k.syms}
    ev.facts = [p for p in ev.facts if not any(x.id in ids for m, _ in p.a for x in m)]
    ev.fmemo = {}
    return UNDEF


RED = {0: "sum", 1: "min", 2: "max", 3: "prod"}


@model("hv_reduce_acc")
def _(ev, st, a, I, f):
    k = ev.kern()
    s = X.sym("acc%d_%d" % (k.id, a[0]))
    k.reds[a[0]] = [s, RED[a[1]], None, None]
    return s


@model("hv_reduce_end")
def _(ev, st, a, I, f):
    k = ev.kern()
    r = k.reds[a[0]]
    r[2] = a[2]
    node = reduce_node(k, r[0], RED[a[1]], a[2])
    r[3] = node
    return node


def nodes(x, seen=None):
    """every node below x, guards included"""
    if seen is None:
        seen = set()
    if isinstance(x, tuple):
        for y in x:
            yield from nodes(y, seen)
    elif isinstance(x, B):
        for v in X.bsupport(x):
            if ("v", v) not in seen:
                seen.add(("v", v))
                yield from nodes(tuple(X.VARS[v][1:]), seen)
    elif isinstance(x, E) and x.id not in seen:
        seen.add(x.id)
        yield x
        yield from nodes(x.a, seen)


def binder(body):
    """nesting level of the reductions below: bound variables of different levels are distinct"""
    return max([1 + e.a[-1] for e in nodes(body) if e.op in ("red", "scan")], default=0)


def reduce_node(k, acc, op, local):
    if op in ("min", "max"):
        # equal contributions of every index
        v0 = X.subst(local, {acc.id: X.mk("inf", (1 if op == "min" else -1,), "f")})
        if v0.op in ("inf", "c", "nan") and X.subst(local, {acc.id: v0}) is v0:
            return v0
    lv = binder(local)
    m = {acc.id: X.sym("red%d_acc" % lv)}
    for d, s in enumerate(k.syms):
        m[atom_of(s).id] = X.iadd(X.sym("red%d_k%d" % (lv, d), "i"), k.dom[d][0])  # domains start at 0
    body = X.subst(local, m)
    dom = []
    for lo, hi in k.dom:
        dom += [0, X.isub(hi, lo)]
    return X.mk("red", (op, body) + tuple(dom) + (lv,), "f")


@model("hv_scan_acc")
def _(ev, st, a, I, f):
    k = ev.kern()
    s = X.sym("scan%d_%d" % (k.id, a[0]))
    k.reds[a[0]] = [s, "scan", None, None]
    return s


@model("hv_scan_final")
def _(ev, st, a, I, f):
    return TRUE


@model("hv_scan_end")
def _(ev, st, a, I, f):
    k = ev.kern()
    r = k.reds[a[0]]
    acc = r[0]
    inc = X.fsub(a[1], acc)
    inc = cancel_add(a[1], acc)
    lv = binder(inc)
    m = {atom_of(k.syms[0]).id: X.sym("red%d_k0" % lv, "i")}
    node = X.mk("scan", ("sum", X.subst(inc, m), k.dom[0][0], k.syms[0], lv), "f")
    sub = {acc.id: node}
    for b, h in ev.hist.items():
        for e in h:
            if e.kern is k and isinstance(e.val, E):
                e.val = X.subst(e.val, sub)
    k.writes = [(b, i, g, w, X.subst(v, sub) if isinstance(v, E) else v, c) for b, i, g, w, v, c in k.writes]
    return UNDEF


@model("hv_unscan")
def _(ev, st, a, I, f):
    """S(i) = S(i-1) + term(i-1) and S(first) = 0 for the (exclusive) prefix sums ending at i"""
    v, up = a
    sub = {}

    for e in nodes(v):
        if e.op == "scan" and X.isub(e.a[3], up) == 0:
            term = X.subst(e.a[1], {atom_of(X.sym("red%d_k0" % e.a[4], "i")).id: X.isub(up, 1)})
            n = X.isub(up, e.a[2])
            if n == 0:
                sub[e.id] = X.ZERO
            elif ev.nonneg(X.isub(n, 1)):
                sub[e.id] = X.fadd(X.mk("scan", (e.a[0], e.a[1], e.a[2], X.isub(up, 1), e.a[4]), "f"), term)
    return X.subst(v, sub)


def cancel_add(total, acc):
    """total - acc where total is a sum containing acc"""
    if total is acc:
        return X.ZERO
    if total.op == "add":
        a, b = total.a
        if a is acc:
            return b
        if b is acc:
            return a
        for p, q in ((a, b), (b, a)):
            if any(x is acc for x in X.atoms(p)):
                return X.fadd(cancel_add(p, acc), q)
    if total.op == "ite":
        return X.ite(total.a[0], cancel_add(total.a[1], acc), cancel_add(total.a[2], acc))
    raise Unsupported("scan accumulator is not updated by addition")


@model("hv_fence")
def _(ev, st, a, I, f):
    ev.event(st, "fence", ())
    return UNDEF


@model("hv_region_push", "hv_region_pop")
def _(ev, st, a, I, f):
    ev.event(st, f.name, ())
    return UNDEF


@model("hv_printf", "hv_print_configuration", "hv_kokkos_init", "hv_kokkos_fini")
def _(ev, st, a, I, f):
    ev.event(st, f.name, tuple(a))
    return UNDEF


@model("hv_string_cstr")
def _(ev, st, a, I, f):
    return ev.mkcstr(ev.getstr(st, a[0]))


# ----------------------------------------------------------------------------- checker intrinsics


@model("hv_sym")
def _(ev, st, a, I, f):
    return X.sym(ev.cstr(st, a[0]))


@model("hv_pos")
def _(ev, st, a, I, f):
    n = ev.cstr(st, a[0])
    ev.positive.add(n)
    return X.sym(n)


@model("hv_isym")
def _(ev, st, a, I, f):
    return X.sym(ev.cstr(st, a[0]), "i")


@model("hv_bsym")
def _(ev, st, a, I, f):
    n = ev.cstr(st, a[0])
    return X.bvar(("P", n, X.sym(n)))


@model("hv_obj")
def _(ev, st, a, I, f):
    return Ptr(ev.symobj(ev.cstr(st, a[0])), 0)


@model("hv_strsym")
def _(ev, st, a, I, f):
    n = ev.cstr(st, a[1])
    ev.setstr(st, a[0], ev.cases[n] if n in ev.cases else ("str", n))
    return UNDEF


@model("hv_strset")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], ev.cstr(st, a[1]))
    return UNDEF


@model("hv_assume")
def _(ev, st, a, I, f):
    c = ev.tobool(a[0])
    c = X.constrain(c, st.g)
    st.g = band(st.g, c)
    if st.g is FALSE:
        return DEAD
    # integer facts
    b = c
    lits = []
    while b.id > 1:
        if b.lo is FALSE:
            lits.append((b.v, True))
            b = b.hi
        elif b.hi is FALSE:
            lits.append((b.v, False))
            b = b.lo
        else:
            lits = None
            break
    if lits:
        pos = {}
        for v, pol in lits:
            d = X.VARS[v]
            if d[0] == "IL":
                ev.fact(X.isub(-1, d[1]) if pol else d[1])
                pos.setdefault(d[1].id, {})["L"] = pol
            elif d[0] == "IE":
                pos.setdefault(d[1].id, {})["E"] = pol
                if pol:
                    ev.fact(d[1])
                    ev.fact(X.ineg(d[1]))
        for v, pol in lits:
            d = X.VARS[v]
            if d[0] == "IE" and not pol and pos[d[1].id].get("L") is False:
                ev.fact(X.isub(d[1], 1))
    return UNDEF


@rx(r"hv_fn\d?$")
def _(ev, st, a, I, f):
    n = ev.cstr(st, a[0])
    args = []
    for x in a[1:]:
        if isinstance(x, (E, int)):
            args.append(x)
        elif isinstance(x, B):
            args.append(X.ite(x, 1, 0))
    if I[2].startswith("i"):
        return X.iatom("fnI", n, *args)
    if isinstance(n, str) and n.startswith("pos:"):
        ev.positive.add("fn:" + n)
    return X.fn(n, *args)


class Ob:
    """obligation: under guard g, a == b"""

    def __init__(self, what, a, b, g, where, kind="eq", facts=()):
        m = getattr(CUR[0], "lets", None)
        if m:
            a, b, g = (X.subst(x, m) if isinstance(x, (E, B)) else x for x in (a, b, g))
            facts = [y for y in (X.subst(x, m) for x in facts) if not isconst(y)]
        self.what, self.a, self.b, self.g, self.where, self.kind, self.facts = what, a, b, g, where, kind, list(facts)


@model("hv_let")
def _(ev, st, a, I, f):
    """obligations stated from here on are specialised to symbol = value"""
    s, v = ev.asint(a[0]), ev.asint(a[1])
    if isconst(s):
        return UNDEF
    m = dict(getattr(ev, "lets", None) or {})
    m[atom_of(s).id] = X.subst(v, m)
    ev.lets = m
    return UNDEF


@model("hv_eq")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), a[1], a[2], st.g, ev.where(), "eq", ev.facts))
    return UNDEF


@model("hv_near")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), a[1], a[2], st.g, ev.where(), "near", ev.facts))
    return UNDEF


@model("hv_eqi")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), ev.asint(a[1]), ev.asint(a[2]), st.g, ev.where(), "eq", ev.facts))
    return UNDEF


@model("hv_true")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), ev.tobool(a[1]), TRUE, st.g, ev.where(), "bool", ev.facts))
    return UNDEF


@model("hv_eqb")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), ev.tobool(a[1]), ev.tobool(a[2]), st.g, ev.where(), "bool", ev.facts))
    return UNDEF


@model("hv_opaque")
def _(ev, st, a, I, f):
    """calls of the named function return an uninterpreted function of its floating-point arguments"""
    ev.opaque[showterm(ev.cstr(st, a[0])).strip("'")] = showterm(ev.cstr(st, a[1])).strip("'")
    ev.mcache.clear()
    return UNDEF


def opaque_model(name):
    def m(ev, st, a, I, f):
        return X.fn(name, *[x for x in a if isinstance(x, E) and x.k == "f"])

    return m


@model("hv_ieee")
def _(ev, st, a, I, f):
    """from here on comparisons take not-a-number and infinities into account"""
    X.ORDERED[0] = a[0] in (0, FALSE)
    return UNDEF


@model("hv_expect_throw")
def _(ev, st, a, I, f):
    """the rest of the driver must terminate by an exception exactly when the argument holds"""
    ev.expect = (ev.tobool(a[0]), st.g)
    return UNDEF


@model("hv_streq")
def _(ev, st, a, I, f):
    s, t = ev.getstr(st, a[1]), ev.getstr(st, a[2])
    ev.oblig.append(Ob(ev.cstr(st, a[0]), Str(s), Str(t), st.g, ev.where(), "str", ev.facts))
    return UNDEF


@model("hv_ptreq")
def _(ev, st, a, I, f):
    ev.oblig.append(Ob(ev.cstr(st, a[0]), ev.pcmp("eq", a[1], a[2]), TRUE, st.g, ev.where(), "bool", ev.facts))
    return UNDEF


@model("hv_note")
def _(ev, st, a, I, f):
    ev.event(st, "note", tuple([ev.cstr(st, a[0])] + list(a[1:])))
    return UNDEF


@model("hv_fact")
def _(ev, st, a, I, f):
    ev.fact(ev.asint(a[0]))
    return UNDEF


@model("hv_view_eq")
def _(ev, st, a, I, f):
    """final contents agree at every index below the extents"""
    u, v = ev.view_of(a[1]), ev.view_of(a[2])
    r = u.rank if u.rank is not None else v.rank
    u, v = ev.view_of(a[1], r), ev.view_of(a[2], r)
    what = ev.cstr(st, a[0])
    J = [X.sym("j%d" % d, "i") for d in range(r)]
    save = list(ev.facts)
    for d in range(r):
        ev.fact(J[d])
        ev.fact(X.isub(X.isub(v.ext[d], J[d]), 1))
    x = ev.vload(u.base, u.map(tuple(J)), st.g)
    y = ev.vload(v.base, v.map(tuple(J)), st.g)
    ev.oblig.append(Ob(what, x, y, st.g, ev.where(), "view", ev.facts))
    for d in range(r):
        ev.oblig.append(Ob(what + ".extent%d" % d, u.ext[d], v.ext[d], st.g, ev.where(), "eq", save))
    ev.facts = save
    ev.fmemo = {}
    return UNDEF


# ----------------------------------------------------------------------------- libm and compiler intrinsics

FN = {}
for n in "sqrt pow exp log sin cos tan tanh sinh cosh atan asin acos cbrt floor ceil round trunc log10 exp2 log2 atan2 hypot fmod rint nearbyint".split():
    FN[n] = n


def absr(x):
    if x.op == "c":
        return x if x.a[0] >= 0 else X.fneg(x)
    if x.op == "neg":
        return absr(x.a[0])
    if x.op == "fn" and x.a[0] in ("sqrt", "exp", "cosh"):
        return x
    if x.op == "inf":
        return X.mk("inf", (1,), "f")
    return X.ite(X._fl(x, X.ZERO), X.fneg(x), x)


def libm(ev, st, a, I, f):
    n = f.name
    if n.startswith("llvm."):
        n = n.split(".")[1]
    a = [ev.coerce(x, "f64") if not isinstance(x, E) else x for x in a]
    if n == "fabs":
        return absr(a[0])
    if n in ("fmuladd", "fma"):
        return X.fadd(X.fmul(a[0], a[1]), a[2])
    if n in ("maxnum", "fmax"):
        return X.ite(X._fl(a[0], a[1]), a[1], a[0])
    if n in ("minnum", "fmin"):
        return X.ite(X._fl(a[1], a[0]), a[1], a[0])
    if n == "copysign":
        y = absr(a[0])
        return X.ite(X._fl(a[1], X.ZERO), X.fneg(y), y)
    if n == "powi":
        return X.fn("pow", a[0], X.i2f(a[1]) if not isconst(a[1]) else X.fconst(a[1]))
    if n == "is":
        return fpclass(a[0], a[1])
    if n in FN:
        return X.fn(n, *a)
    return NotImplemented


def fpclass(x, mask):
    m = mask & 1023 if isinstance(mask, int) else None
    nan = X.funo(x, x)
    if x.op == "inf":
        return TRUE if (m >> (9 if x.a[0] > 0 else 2)) & 1 else FALSE
    if x.op == "nan":
        return TRUE if m & 3 else FALSE
    if X.ORDERED[0]:
        if m == 0x1F8 or m == 0x3FC:
            return TRUE
        if m in (3, 0x204, 0x207):
            return FALSE
        return X.bvar(("P", "fpclass%d" % m, x))
    if x.op == "c":
        return TRUE if m & 0x1F8 else FALSE
    inf = X.bvar(("P", "isinf", x))
    if m == 3:
        return nan
    if m == 0x1F8:
        return band(bnot(nan), bnot(inf))
    if m == 0x204:
        return band(bnot(nan), inf)
    return X.bvar(("P", "fpclass%d" % m, x))


for n in list(FN) + ["fabs", "fma", "fmax", "fmin", "copysign"]:
    TABLE[n] = libm
REGEX.append((re.compile(r"llvm\.(sqrt|pow|exp|log|sin|cos|tan|floor|ceil|round|trunc|log10|exp2|log2|fabs|fma|fmuladd|maxnum|minnum|copysign|powi|rint|nearbyint)\."), libm))


@rx(r"llvm\.is\.fpclass")
def _(ev, st, a, I, f):
    return fpclass(a[0], a[1])


@rx(r"llvm\.(dbg|lifetime|assume|experimental|stacksave|stackrestore|donothing|invariant|prefetch|var\.annotation)")
def _(ev, st, a, I, f):
    return NULL if I[2] == "ptr" else UNDEF


@rx(r"llvm\.expect")
def _(ev, st, a, I, f):
    return a[0]


@rx(r"llvm\.(public\.type\.test|type\.test)")
def _(ev, st, a, I, f):
    if isinstance(a[0], Ptr) and isinstance(a[1], Opaque):
        ev.virt[a[0].o.name] = a[1].t[1]
    return TRUE


@rx(r"llvm\.(smax|umax)")
def _(ev, st, a, I, f):
    a = [ev.asint(x) for x in a]
    return X.ite(X.icmp("sgt", a[0], a[1]), a[0], a[1])


@rx(r"llvm\.(smin|umin)")
def _(ev, st, a, I, f):
    a = [ev.asint(x) for x in a]
    return X.ite(X.icmp("slt", a[0], a[1]), a[0], a[1])


@rx(r"llvm\.abs|^abs$|^labs$")
def _(ev, st, a, I, f):
    x = ev.asint(a[0])
    return X.ite(X.icmp("slt", x, 0), X.ineg(x), x)


@rx(r"llvm\.[us]mul\.with\.overflow")
def _(ev, st, a, I, f):
    return Agg((X.imul(ev.asint(a[0]), ev.asint(a[1])), FALSE))


@rx(r"llvm\.[us]add\.with\.overflow")
def _(ev, st, a, I, f):
    return Agg((X.iadd(ev.asint(a[0]), ev.asint(a[1])), FALSE))


@rx(r"llvm\.(trap|ubsantrap)")
def _(ev, st, a, I, f):
    ev.event(st, "trap", ())
    return DEAD


@rx(r"llvm\.va_")
def _(ev, st, a, I, f):
    return UNDEF


@rx(r"llvm\.mem(cpy|move)|^mem(cpy|move)$")
def _(ev, st, a, I, f):
    ev.memcpy(st, a[0], a[1], ev.asint(a[2]))
    return a[0] if f.name.startswith("mem") else UNDEF


@rx(r"llvm\.memset|^memset$")
def _(ev, st, a, I, f):
    n = ev.simp(ev.asint(a[2]))
    if isinstance(a[0], Ptr) and isconst(n) and isconst(a[0].off):
        if n:
            if isinstance(a[1], int) and a[1] == 0:
                ev.fill(st, a[0], n, "zero")
            elif isinstance(a[1], int) and n <= 4096:
                for i in range(n):
                    ev.store(st, ev.padd(a[0], i), a[1], 1, "i8")
            else:
                ev.fill(st, a[0], n, "undef")
    else:
        ev.event(st, "memset", tuple(a))
    return a[0] if f.name == "memset" else UNDEF


# ----------------------------------------------------------------------------- allocation


@model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def _(ev, st, a, I, f):
    n = ev.simp(ev.asint(a[0]))
    o = Obj("heap", "heap%d" % ev.bump(), n)
    st.mem[o] = Mem(st.tok)
    ev.event(st, "new", (o, n))
    return Ptr(o, 0)


@model("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def _(ev, st, a, I, f):
    ev.event(st, "delete", (a[0],))
    return UNDEF


# ----------------------------------------------------------------------------- control


@model("__cxa_allocate_exception")
def _(ev, st, a, I, f):
    o = Obj("heap", "exc%d" % ev.bump(), a[0])
    st.mem[o] = Mem(st.tok)
    return Ptr(o, 0)


@model("__cxa_throw")
def _(ev, st, a, I, f):
    msg = None
    if isinstance(a[0], Ptr):
        m = st.mem.get(a[0].o)
        if m is not None and -8 in m.cells:
            msg = m.cells[-8][1]
    ty = a[1].o.name if isinstance(a[1], Ptr) else "?"
    ev.event(st, "throw", (ty, msg))
    return DEAD


@rx(r"std::(runtime_error|domain_error|out_of_range|invalid_argument|logic_error|length_error|range_error)::\1\(")
def _(ev, st, a, I, f):
    t = ev.cstr(st, a[1]) if "char const*" in f.dem else ev.getstr(st, a[1])
    if isinstance(a[0], Ptr):
        ev.wmem(st, a[0].o).cells[-8] = (8, Str(t))
    return UNDEF


@rx(r"std::__throw_")
def _(ev, st, a, I, f):
    ev.event(st, "throw", (f.dem, None))
    return DEAD


@model("abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual")
def _(ev, st, a, I, f):
    ev.event(st, f.name, tuple(a))
    return DEAD


@model("__cxa_guard_acquire")
def _(ev, st, a, I, f):
    return 1


@model("__cxa_guard_release", "__cxa_atexit", "__gxx_personality_v0", "__cxa_free_exception", "__cxa_end_catch", "__cxa_guard_abort")
def _(ev, st, a, I, f):
    return 0 if I[2] != "void" else UNDEF


@model("__errno_location")
def _(ev, st, a, I, f):
    return Ptr(ev.symobj("errno"), 0)


# ----------------------------------------------------------------------------- strings
S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
SE = re.escape(S)


CUR = [None]


def isstr(t):
    return isinstance(t, str)


def cat(a, b):
    if isstr(a) and isstr(b):
        return a + b
    if a == "":
        return b
    if b == "":
        return a
    xs = []
    for t in (a, b):
        if isinstance(t, tuple) and t[0] == "cat":
            xs += list(t[1:])
        else:
            xs.append(t)
    out = []
    for t in xs:
        if out and isstr(out[-1]) and isstr(t):
            out[-1] += t
        else:
            out.append(t)
    return ("cat",) + tuple(out)


def slen(ev, t):
    if isstr(t):
        return len(t)
    if isinstance(t, tuple) and t[0] in ("lower", "upper"):
        return slen(ev, t[1])
    if isinstance(t, tuple) and t[0] == "ite":
        return X.ite(t[1], slen(ev, t[2]), slen(ev, t[3]))
    if isinstance(t, tuple) and t[0] == "cat":
        r = 0
        for x in t[1:]:
            r = X.iadd(r, slen(ev, x))
        return r
    n = X.sym("len(%s)" % showterm(t), "i")
    if ev is not None:
        ev.fact(n)
    return n


CODES = {}


def streq(a, b):
    if a == b:
        return TRUE
    if isstr(a) and isstr(b):
        return FALSE
    for p, q in ((a, b), (b, a)):
        if isinstance(p, tuple) and p[0] == "ite":
            return X.bite(p[1], streq(p[2], q), streq(p[3], q))
    for p, q in ((a, b), (b, a)):
        if q == "":
            if isinstance(p, tuple) and p[0] == "cat":
                if any(isstr(x) for x in p[1:]):
                    return FALSE
                r = TRUE
                for x in p[1:]:
                    r = band(r, streq(x, ""))
                return r
            if isinstance(p, tuple) and p[0] in ("lower", "upper"):
                p = p[1]
            return X.ieq0(slen(CUR[0], p))
    a, b = sorted([a, b], key=showterm)
    if isstr(a) != isstr(b):
        # one text known: distinct known texts exclude each other
        k, t = (a, b) if isstr(a) else (b, a)
        return X.ieq0(X.isub(X.sym("text(%s)" % showterm(t), "i"), CODES.setdefault(k, 1 + len(CODES))))
    return X.bvar(("P", "streq", X.sym("%s==%s" % (showterm(a), showterm(b)))))


def sv_term(ev, st, n, p):
    """string_view (len, ptr) -> term"""
    if isconst(n) and isinstance(p, Ptr) and p.o.kind in ("heap", "stack") and isconst(p.off) and 0 <= n < 4096:
        m = ev.getmem(st, p.o)
        l = [ev.load_at(m, p.off + k, "i8", 1) for k in range(n)]
        if all(isinstance(x, int) for x in l):
            return "".join(chr(x & 255) for x in l)
    t = ev.cstr(st, p)
    return sub_to(ev, t, n)


def sub_to(ev, t, n):
    if isstr(t) and isconst(n):
        return t[:n]
    if not isstr(t) and not isconst(n) and same(n, slen(ev, t)):
        return t
    if isinstance(t, tuple) and t[0] == "ite":
        return ("ite", t[1], sub_to(ev, t[2], n), sub_to(ev, t[3], n)) if isconst(n) else ("substr", t, 0, n)
    return ("substr", t, 0, n)


def smodel(p):
    return rx("^" + SE + "::" + p)


@smodel(r"basic_string\(\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], "")
    return UNDEF


@smodel(r"basic_string\(std::allocator<char> const&\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], "")
    return UNDEF


@smodel(r"basic_string(<std::allocator<char>>)?\(char const\*, std::allocator<char> const&\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], ev.cstr(st, a[1]))
    return UNDEF


@smodel(r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], sv_term(ev, st, ev.asint(a[2]), a[1]))
    return UNDEF


@smodel(r"basic_string(<std::allocator<char>>)?\(unsigned long, char, std::allocator<char> const&\)$")
def _(ev, st, a, I, f):
    n, c = ev.asint(a[1]), a[2]
    ev.setstr(st, a[0], chr(c) * n if isconst(n) and isinstance(c, int) else ("rep", n, c))
    return UNDEF


@smodel(r"basic_string\(" + SE + r"( const)?&&?\)$")
def _(ev, st, a, I, f):
    t = ev.getstr(st, a[1])
    ev.setstr(st, a[0], t)
    return UNDEF


@smodel(r"basic_string(<std::basic_string_view<char, std::char_traits<char>>, void>)?\((std::basic_string_view|" + SE + "::__sv_wrapper)")
def _(ev, st, a, I, f):
    if len(a) >= 3 and isinstance(a[1], (int, E)):
        ev.setstr(st, a[0], sv_term(ev, st, a[1], a[2]))
    else:
        n = ev.load(st, a[1], "i64", 8)
        p = ev.load(st, ev.padd(a[1], 8), "ptr", 8)
        ev.setstr(st, a[0], sv_term(ev, st, n, p))
    return UNDEF


@smodel(r"~basic_string\(\)$")
def _(ev, st, a, I, f):
    return UNDEF


@smodel(r"(c_str|data)\(\)( const)?$")
def _(ev, st, a, I, f):
    return ev.mkcstr(ev.getstr(st, a[0]))


@smodel(r"(size|length)\(\) const$")
def _(ev, st, a, I, f):
    return slen(ev, ev.getstr(st, a[0]))


@smodel(r"capacity\(\) const$")
def _(ev, st, a, I, f):
    return ev.new("capacity", "i")


@smodel(r"empty\(\) const$")
def _(ev, st, a, I, f):
    t = ev.getstr(st, a[0])
    return streq(t, "")


@smodel(r"operator=\((" + SE + r"( const)?&&?|char const\*)\)$")
def _(ev, st, a, I, f):
    t = ev.cstr(st, a[1]) if "char const*" in f.dem else ev.getstr(st, a[1])
    ev.setstr(st, a[0], t)
    return a[0]


@smodel(r"assign\((" + SE + r"( const)?&&?|char const\*)\)$")
def _(ev, st, a, I, f):
    t = ev.cstr(st, a[1]) if "char const*" in f.dem else ev.getstr(st, a[1])
    ev.setstr(st, a[0], t)
    return a[0]


@smodel(r"(append|operator\+=)\((" + SE + r" const&|char const\*|char)\)$")
def _(ev, st, a, I, f):
    if f.dem.endswith("(char)"):
        t = chr(a[1]) if isinstance(a[1], int) else ("chr", a[1])
    else:
        t = ev.cstr(st, a[1]) if "char const*" in f.dem else ev.getstr(st, a[1])
    ev.setstr(st, a[0], cat(ev.getstr(st, a[0]), t))
    return a[0]


@smodel(r"append\(char const\*, unsigned long\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], cat(ev.getstr(st, a[0]), sv_term(ev, st, ev.asint(a[2]), a[1])))
    return a[0]


@smodel(r"push_back\(char\)$")
def _(ev, st, a, I, f):
    t = chr(a[1]) if isinstance(a[1], int) else ("chr", a[1])
    ev.setstr(st, a[0], cat(ev.getstr(st, a[0]), t))
    return UNDEF


@smodel(r"clear\(\)$")
def _(ev, st, a, I, f):
    ev.setstr(st, a[0], "")
    return UNDEF


@smodel(r"reserve\(")
def _(ev, st, a, I, f):
    return UNDEF


@smodel(r"compare\(" + SE + r" const&\) const$")
def _(ev, st, a, I, f):
    s, t = ev.getstr(st, a[0]), ev.getstr(st, a[1])
    if isstr(s) and isstr(t):
        return (s > t) - (s < t)
    return X.ite(streq(s, t), 0, 1)


@smodel(r"compare\(char const\*\) const$")
def _(ev, st, a, I, f):
    s, t = ev.getstr(st, a[0]), ev.cstr(st, a[1])
    if isstr(s) and isstr(t):
        return (s > t) - (s < t)
    return X.ite(streq(s, t), 0, 1)


@smodel(r"compare\(unsigned long, unsigned long, (char const\*|" + SE + r" const&)\) const$")
def _(ev, st, a, I, f):
    s, t = ev.getstr(st, a[0]), ev.cstr(st, a[3]) if "char const*" in f.dem else ev.getstr(st, a[3])
    return X.ite(subeq(ev, st, s, ev.asint(a[1]), ev.asint(a[2]), t), 0, 1)


def subeq(ev, st, s, p, n, t):
    """does the part [p, p+n) of s equal t"""
    if isinstance(s, tuple) and s[0] == "ite":
        return X.bite(s[1], subeq(ev, st, s[2], p, n, t), subeq(ev, st, s[3], p, n, t))
    if isinstance(p, E) and p.op == "ite":
        return X.bite(p.a[0], subeq(ev, st, s, p.a[1], n, t), subeq(ev, st, s, p.a[2], n, t))
    if isstr(s) and isconst(p) and isconst(n):
        return streq(s[p:p + n], t)
    return streq(("substr", s, p, n), t)


@smodel(r"insert\(unsigned long, (char const\*|" + SE + r" const&)\)$")
def _(ev, st, a, I, f):
    s = ev.getstr(st, a[0])
    t = ev.cstr(st, a[2]) if "char const*" in f.dem else ev.getstr(st, a[2])
    n = a[1]
    if isconst(n) and n == 0:
        r = cat(t, s)
    elif isstr(s) and isconst(n):
        r = cat(cat(s[:n], t), s[n:])
    else:
        r = ("insert", s, n, t)
    ev.setstr(st, a[0], r)
    return a[0]


@smodel(r"back\(\)( const)?$")
def _(ev, st, a, I, f):
    t = ev.getstr(st, a[0])
    o = ev.mkcstr(t)
    n = slen(ev, t)
    return ev.padd(o, X.isub(n, 1))


@smodel(r"operator\[\]\(unsigned long\)( const)?$")
def _(ev, st, a, I, f):
    t = ev.getstr(st, a[0])
    k = ev.asint(a[1])
    if not isconst(k) and not f.dem.endswith("const"):
        return ev.padd(HOOK["chars"](ev, st, a[0], False), k)
    return ev.padd(ev.mkcstr(t), k)


@smodel(r"replace\(unsigned long, unsigned long, char const\*, unsigned long\)$")
def _(ev, st, a, I, f):
    s = ev.getstr(st, a[0])
    t = sv_term(ev, st, ev.asint(a[4]), a[3])
    p, n = ev.asint(a[1]), ev.asint(a[2])
    if isconst(p) and isconst(n) and isstr(s):
        r = cat(cat(s[:p], t), s[p + n:])
    else:
        r = ("replace", s, p, n, t)
    ev.setstr(st, a[0], r)
    return a[0]


@smodel(r"substr\(unsigned long, unsigned long\) const$")
def _(ev, st, a, I, f):
    s = ev.getstr(st, a[1])
    p, n = ev.asint(a[2]), ev.asint(a[3])
    if isstr(s) and isconst(p) and isconst(n):
        r = s[p:] if n < 0 else s[p:p + n]
    else:
        r = ("substr", s, p, n)
    ev.setstr(st, a[0], r)
    return UNDEF


@rx(r"^" + SE + r" std::operator\+<")
def _(ev, st, a, I, f):
    sig = f.dem[f.dem.index("allocator<char>>(") + 16:] if False else f.dem
    m = re.search(r"std::operator\+<char, std::char_traits<char>, std::allocator<char>>\((.*)\)$", f.dem)
    parts = splitargs(m.group(1))
    ts = []
    for p, v in zip(parts, a[1:]):
        if p == "char const*":
            ts.append(ev.cstr(st, v))
        elif p == "char":
            ts.append(chr(v) if isinstance(v, int) else ("chr", v))
        else:
            ts.append(ev.getstr(st, v))
    ev.setstr(st, a[0], cat(ts[0], ts[1]))
    return UNDEF


def splitargs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            depth += 1
        if ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@rx(r"^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char>>\(")
def _(ev, st, a, I, f):
    m = re.search(r"std::allocator<char>>\((.*)\)$", f.dem)
    s = ev.getstr(st, a[0])
    t = ev.cstr(st, a[1]) if f.dem.rstrip(")").endswith("char const*") else ev.getstr(st, a[1])
    if f.dem.startswith("bool std::operator==<char, std::char_traits<char>, std::allocator<char>>(char const*"):
        s = ev.cstr(st, a[0])
        t = ev.getstr(st, a[1])
    r = streq(s, t)
    return r if "operator==" in f.dem else bnot(r)


@rx(r"^bool std::operator==<char, std::char_traits<char>>\(std::basic_string_view")
def _(ev, st, a, I, f):
    return streq(sv_term(ev, st, a[0], a[1]), sv_term(ev, st, a[2], a[3]))


@rx(r"^std::__cxx11::to_string\(")
def _(ev, st, a, I, f):
    v = a[1]
    ev.setstr(st, a[0], str(v) if isinstance(v, int) else ("to_string", v))
    return UNDEF


@model("strlen")
def _(ev, st, a, I, f):
    return slen(ev, ev.cstr(st, a[0]))


@rx(r"^std::char_traits<char>::length\(")
def _(ev, st, a, I, f):
    return slen(ev, ev.cstr(st, a[0]))


@rx(r"^std::__cxx11::basic_stringstream|^std::__cxx11::basic_ostringstream|^std::__cxx11::basic_istringstream")
def _(ev, st, a, I, f):
    d = f.dem
    if "::str() const" in d:
        p = a[1]
        ev.setstr(st, a[0], stream_term(ev, st, p))
        return UNDEF
    if "~" in d:
        return UNDEF
    if "basic_stringstream(" in d or "basic_ostringstream(" in d or "basic_istringstream(" in d:
        # opaque stream object, contents at pseudo-offset -64
        ev.fill(st, a[0], 400, "sym", ("stream", 0))
        t = ""
        if "basic_string<" in d.split("(", 1)[1]:
            t = ev.getstr(st, a[1])
        ev.event(st, "sstream_ctor", (a[0], t))
        for o in (-64, 16 - 64):
            ev.wmem(st, a[0].o).cells[a[0].off + o] = (16, Str(t))
        ev.wmem(st, a[0].o).cells[a[0].off - 96] = (32, Str(("read", 0, False, False)))
        vt = Obj("stack", "stream vtable", 64)
        st.mem[vt] = Mem(st.tok)
        ev.store(st, Ptr(vt, 0), 0, 8, "i64")
        for o in (0, 16):
            ev.store(st, ev.padd(a[0], o), Ptr(vt, 24), 8, "ptr")
        ev.virt_stream = getattr(ev, "virt_stream", {})
        ev.virt_stream[a[0].o] = a[0].off
        return UNDEF
    return NotImplemented


@rx(r"^std::basic_o?fstream<char, std::char_traits<char>>::")
def _(ev, st, a, I, f):
    d = f.dem.split("char_traits<char>>::", 1)[1]
    if d.startswith("basic_ofstream(") or d.startswith("basic_fstream("):
        arg = splitargs(d[d.index("(") + 1:-1])
        name = None
        if arg:
            name = ev.cstr(st, a[1]) if arg[0] == "char const*" else ev.getstr(st, a[1])
        ev.fill(st, a[0], 400, "sym", ("stream", 0))
        m = ev.wmem(st, a[0].o)
        for o in (-64, 16 - 64):
            m.cells[a[0].off + o] = (16, Str(""))
        m.cells[a[0].off - 96] = (32, Str(("file", name, a[2] if len(a) > 2 else None)))
        vt = Obj("stack", "stream vtable", 64)
        st.mem[vt] = Mem(st.tok)
        ev.store(st, Ptr(vt, 0), 0, 8, "i64")
        ev.store(st, a[0], Ptr(vt, 24), 8, "ptr")
        ev.virt_stream = getattr(ev, "virt_stream", {})
        ev.virt_stream[a[0].o] = a[0].off
        return UNDEF
    k = stream_key(ev, st, a[0])
    if k is None:
        return NotImplemented
    m = ev.wmem(st, a[0].o)
    if d.startswith("open("):
        m.cells[k - 32] = (32, Str(("file", ev.cstr(st, a[1]) if d.startswith("open(char") else ev.getstr(st, a[1]), a[2])))
        return UNDEF
    if d.startswith("is_open("):
        return X.bvar(("P", "opened", X.sym("file@%d" % a[0].o.id))) if hasattr(a[0].o, "id") else X.bvar(("P", "opened", X.sym("file")))
    if d.startswith("close(") or d.startswith("~"):
        w = m.cells[k - 32][1].t
        if w[1] is not None:
            ev.event(st, "file", (w[1], m.cells[k][1].t, w[2]))
        m.cells[k - 32] = (32, Str(("file", None, None)))
        return UNDEF
    return NotImplemented


def stream_key(ev, st, p):
    if not isinstance(p, Ptr):
        return None
    base = getattr(ev, "virt_stream", {}).get(p.o)
    return None if base is None else base - 64


def stream_term(ev, st, p):
    k = stream_key(ev, st, p)
    if k is None:
        return ("stream", repr(p))
    return ev.getmem(st, p.o).cells[k][1].t


def stream_put(ev, st, p, t):
    k = stream_key(ev, st, p)
    if k is None:
        nm = p.o.name if isinstance(p, Ptr) else repr(p)
        ev.event(st, "print", (nm, t))
        return
    m = ev.wmem(st, p.o)
    m.cells[k] = (16, Str(cat(m.cells[k][1].t, t)))


@rx(r"^std::ostream::operator<<\(")
def _(ev, st, a, I, f):
    v = a[1]
    if isinstance(v, Ptr):
        fnm = ev.p.funcs[v.o.name].dem if v.o.kind == "fn" else str(v.o.name)
        if "endl" in fnm:
            stream_put(ev, st, a[0], "\n")
        elif "flush" in fnm:
            pass
        else:
            stream_put(ev, st, a[0], ("manip", fnm))
        return a[0]
    stream_put(ev, st, a[0], str(v) if isinstance(v, int) else ("fmt", v))
    return a[0]


@rx(r"^std::basic_ostream<char, std::char_traits<char>>& std::operator<<<(char, )?std::char_traits<char>")
def _(ev, st, a, I, f):
    arg = splitargs(f.dem[f.dem.index(">&, ") + 4:-1])[0] if ">&, " in f.dem else ""
    if arg == "char const*":
        t = ev.cstr(st, a[1])
    elif arg == "char":
        t = chr(a[1]) if isinstance(a[1], int) else ("chr", a[1])
    elif arg.startswith("std::__cxx11::basic_string"):
        t = ev.getstr(st, a[1])
    elif arg.startswith("std::basic_string_view"):
        t = sv_term(ev, st, a[1], a[2])
    else:
        t = ("manip", arg, a[1] if isinstance(a[1], (int, str, E)) else repr(a[1]))
    stream_put(ev, st, a[0], t)
    return a[0]


@rx(r"^std::basic_ostream<char, std::char_traits<char>>& std::(flush|endl)<")
def _(ev, st, a, I, f):
    if "endl" in f.dem:
        stream_put(ev, st, a[0], "\n")
    return a[0]


@rx(r"^std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert")
def _(ev, st, a, I, f):
    stream_put(ev, st, a[0], sv_term(ev, st, ev.asint(a[2]), a[1]))
    return a[0]


@rx(r"^std::(allocator|__new_allocator)<char>::|^std::allocator<char>::")
def _(ev, st, a, I, f):
    return UNDEF if I[2] == "void" else NotImplemented


@model("hv_exact_int")
def _(ev, st, a, I, f):
    """machine integers of finite width"""
    ev.hooks["exact"] = ev.tobool(a[0]) is TRUE
    return UNDEF


# ------------------------------------------------------------------ random numbers


@rx(r"^std::random_device::(~?random_device|_M_\w+)\(")
def _(ev, st, a, I, f):
    return UNDEF


@rx(r"^std::(mersenne_twister_engine|linear_congruential_engine)<.*>::(mersenne_twister_engine|linear_congruential_engine|seed)\(")
def _(ev, st, a, I, f):
    return UNDEF


@rx(r"^std::random_device::operator\(\)\(")
def _(ev, st, a, I, f):
    ev.nrandom = getattr(ev, "nrandom", 0) + 1
    return X.iatom("fnI", "seed", ev.nrandom)


@rx(r"^double std::uniform_real_distribution<double>::operator\(\)<")
def _(ev, st, a, I, f):
    """an arbitrary number of the interval"""
    ev.ndraw = getattr(ev, "ndraw", 0)
    v = X.sym("random#%d" % ev.ndraw)
    ev.ndraw += 1
    ev.event(st, "random", (ev.load(st, a[0], "double", 8), ev.load(st, ev.padd(a[0], 8), "double", 8), v))
    return v
