"""Models of the MPI calls used by the code: collectives become uninterpreted functions of the local value,
the reduction and the communicator; every call is also logged as an event."""
from . import expr as X
from .eval import UNDEF, Agg, Ptr, Str, Unsupported, showterm
from .expr import E
from .models import model


def pname(ev, st, p):
    """canonical name of an MPI handle"""
    if isinstance(p, Ptr):
        n = p.o.name if hasattr(p.o, "name") else repr(p.o)
        n = str(n).replace("ompi_mpi_", "").replace("op_", "")
        return n if not (isinstance(p.off, int) and p.off == 0 or p.off is None) and False else (n if p.off == 0 else "%s+%s" % (n, p.off))
    return showterm(p) if not isinstance(p, (E, int)) else X.show(p) if isinstance(p, E) else str(p)


def in_place(p):
    return p == 1 or (isinstance(p, Ptr) and p.off == 1 and getattr(p.o, "kind", "") == "null")


def inplace(ev, p):
    try:
        return ev.pdiff(p, ev.null) == 1
    except Exception:
        return False


TYPE = {"double": ("double", 8), "cxx_bool": ("i8", 1), "int": ("i32", 4)}


@model("MPI_Allreduce")
def _(ev, st, a, I, f):
    send, recv, n, ty, op, comm = a
    ty, op, cm = pname(ev, st, ty), pname(ev, st, op), pname(ev, st, comm)
    src = recv if is_inplace(send) else send
    ev.event(st, "MPI_Allreduce", (op, cm, n, ty))
    ev.mpi_reduce(st, src, recv, n, ty, op, cm) if hasattr(ev, "mpi_reduce") else reduce(ev, st, src, recv, n, ty, op, cm)
    return 0


def is_inplace(p):
    if p == 1:
        return True
    return isinstance(p, Ptr) and repr(p).find("inttoptr") >= 0 or repr(p) in ("1", "&null+1", "&NULL+1")


def reduce(ev, st, src, recv, n, ty, op, cm):
    lt, sz = TYPE[ty]
    if isinstance(n, int) and n <= 16:
        for k in range(n):
            v = ev.load(st, ev.padd(src, k * sz), lt, sz)
            if not (op in ("min", "max") and isinstance(v, E) and v.op in ("inf", "c", "nan")):  # the same constant everywhere
                v = X.fn("allreduce:%s:%s" % (op, cm), v)
            ev.store(st, ev.padd(recv, k * sz), v, sz, lt)
        return
    reduce_array(ev, st, src, recv, n, ty, op, cm)


def reduce_array(ev, st, src, recv, n, ty, op, cm):
    """element-wise reduction of the data of arrays"""
    from .eval import Entry, PIte
    from .models import Ob, Unsupported

    def leaves(p, g):
        if isinstance(p, PIte):
            return leaves(p.a, X.band(g, p.c)) + leaves(p.b, X.band(g, X.bnot(p.c)))
        return [(g, p)] if g is not X.FALSE else []

    new = []
    for g, p in leaves(recv, st.g):
        for g2, q in leaves(src, g):
            for x in (p, q):
                if not (isinstance(x, Ptr) and x.o.kind == "data" and x.off == 0):
                    raise Unsupported("MPI reduction of a symbolic number of elements into %r" % (x,))
            r, s = p.o.x, q.o.x
            if r.rank == 1 and s.rank == 1:
                dom = [ev.asint(n)]
            else:
                dom = list(r.ext)
                size = 1
                for e in s.ext:
                    size = X.imul(size, e)
                ev.oblig.append(Ob("reduction of the whole array", ev.asint(n), size, g2, ev.where(), "eq", ev.facts))
            ds = [ev.new("m", "i") for _ in dom]
            save = list(ev.facts)
            for d, h in zip(ds, dom):
                ev.fact(d)
                ev.fact(X.isub(X.isub(h, d), 1))
            v = X.fn("allreduce:%s:%s" % (op, cm), ev.vload(s.base, s.map(tuple(ds)), g2))
            ev.facts = save
            ev.fmemo = {}
            e = Entry()
            e.idx = r.map(tuple(ds))
            e.g = g2
            e.ctx, e.kern, e.where = tuple(ev.ctx), None, ev.where()
            e.quant = [(d, 0, h) for d, h in zip(ds, dom)]
            e.val, e.src, e.lim = v, None, None
            new.append((r.base, e))
    for b, e in new:
        ev.push(b, e)


@model("MPI_Init", "MPI_Init_thread", "MPI_Finalize", "MPI_Abort", "MPI_Barrier")
def _(ev, st, a, I, f):
    ev.event(st, f.name, tuple(a))
    return 0


@model("MPI_Initialized", "MPI_Finalized")
def _(ev, st, a, I, f):
    names = ("MPI_Init", "MPI_Init_thread") if f.name == "MPI_Initialized" else ("MPI_Finalize",)
    g = X.FALSE
    for e in ev.events:
        if e.name in names:
            g = X.bor(g, e.g)
    ev.store(st, a[0], X.ite(X.constrain(g, st.g), 1, 0), 4, "i32")
    return 0


# ----------------------------------------------------------------------------- process topology
WORLD = "world"


def commname(ev, st, p):
    n = pname(ev, st, p)
    return WORLD if n in ("comm_world", "mpi_comm_world") else n


def isworld(n):
    return n in (WORLD, "comm_world", "mpi_comm_world") or n.endswith("comm_world")


def atleast(ev, name, lo):
    s = X.sym(name, "i")
    ev.fact(X.isub(s, lo))
    return s


def ints(ev, st, p, n):
    return tuple(ev.load(st, ev.padd(p, 4 * k), "i32", 4) for k in range(n))


@model("MPI_Comm_size")
def _(ev, st, a, I, f):
    n = pname(ev, st, a[0])
    s = atleast(ev, "size(world)", 1)
    if not isworld(n) and not n.startswith("cart"):
        s = atleast(ev, "size(%s)" % n, 1)
    ev.event(st, f.name, (n,))
    ev.store(st, a[1], s, 4, "i32")
    return 0


@model("MPI_Comm_rank")
def _(ev, st, a, I, f):
    n = pname(ev, st, a[0])
    s = atleast(ev, "rank(%s)" % n, 0)
    ev.event(st, f.name, (n,))
    ev.store(st, a[1], s, 4, "i32")
    return 0


@model("MPI_Dims_create")
def _(ev, st, a, I, f):
    n, nd, dims = a
    nd = ev.asint(nd)
    if not isinstance(nd, int):
        from .models import Unsupported

        raise Unsupported("MPI_Dims_create with a symbolic number of dimensions")
    old = ints(ev, st, dims, nd)
    ev.event(st, f.name, (n, nd, old))
    for k in range(nd):
        ev.store(st, ev.padd(dims, 4 * k), atleast(ev, "dims%d" % k, 1), 4, "i32")
    return 0


@model("MPI_Cart_create")
def _(ev, st, a, I, f):
    comm, nd, dims, periods, reorder, out = a
    nd = ev.asint(nd)
    k = ev.mpi_carts = getattr(ev, "mpi_carts", 0) + 1
    o = ev.symobj("cart%d" % k)
    o.x = o.x if o.x else {"dims": ints(ev, st, dims, nd)}
    ev.event(st, f.name, (pname(ev, st, comm), nd, ints(ev, st, dims, nd), ints(ev, st, periods, nd), o.name))
    ev.store(st, out, Ptr(o, 0), 8, "ptr")
    return 0


@model("MPI_Cart_coords")
def _(ev, st, a, I, f):
    comm, rank, nd, out = a
    nd = ev.asint(nd)
    n = pname(ev, st, comm)
    ev.event(st, f.name, (n, rank, nd))
    dims = comm.o.x.get("dims") if isinstance(comm, Ptr) and isinstance(comm.o.x, dict) else None
    for k in range(min(nd, len(dims)) if dims else nd):
        s = atleast(ev, "coord%d(%s)" % (k, n), 0)
        if dims:
            ev.fact(X.isub(X.isub(dims[k], 1), s))
        ev.store(st, ev.padd(out, 4 * k), s, 4, "i32")
    return 0


@model("MPI_Cart_sub")
def _(ev, st, a, I, f):
    comm, remain, out = a
    n = pname(ev, st, comm)
    o = ev.symobj("sub(%s)" % n)
    nd = 3
    if isinstance(comm, Ptr) and isinstance(comm.o.x, dict):
        nd = len(comm.o.x["dims"])
    ev.event(st, f.name, (n, ints(ev, st, remain, nd), o.name))
    ev.store(st, out, Ptr(o, 0), 8, "ptr")
    return 0


@model("MPI_Comm_free")
def _(ev, st, a, I, f):
    c = ev.load(st, a[0], "ptr", 8)
    ev.event(st, f.name, (pname(ev, st, c),))
    ev.store(st, a[0], ev.globptr("ompi_mpi_comm_null") if hasattr(ev, "globptr") else X_null(ev), 8, "ptr")
    return 0


def X_null(ev):
    return Ptr(ev.symobj("comm_null"), 0)


# ----------------------------------------------------------------------------- messages between neighbours
# The program is the same on every process: what arrives from the neighbour at offset o is what this process sends,
# evaluated on the neighbour's fields.  Fields named "name@o0,o1,o2" and block sizes "n0", "n0@o" carry the offset.
@model("hv_nbr")
def _(ev, st, a, I, f):
    n = showterm(ev.cstr(st, a[0])).strip("'")
    return Ptr(ev.symobj("%s@%d,%d,%d" % ((n,) + tuple(a[1:4]))), 0)


@model("hv_nbr_size")
def _(ev, st, a, I, f):
    return sizesym(ev, a[0], a[1])


def sizesym(ev, d, o):
    return X.sym("n%d" % d if o == 0 else "n%d@%d" % (d, o), "i")


@model("MPI_Cart_shift")
def _(ev, st, a, I, f):
    from .models import Unsupported

    comm, d, disp, src, dst = a
    cn = pname(ev, st, comm)
    if not (isinstance(d, int) and disp in (1, -1)):
        raise Unsupported("MPI_Cart_shift with direction %r, displacement %r" % (d, disp))
    ev.event(st, f.name, (cn, d, disp))
    if not hasattr(ev, "nbrs"):
        ev.nbrs = {}
    for p, s in ((src, -disp), (dst, disp)):
        y = X.sym("neighbour(%s,%d,%d)" % (cn, d, s), "i")
        ev.nbrs[y] = (cn, d, s)
        ev.store(st, p, y, 4, "i32")
    return 0


def shifted(ev, v, d, s):
    import re

    memo = {}
    m = {"ld": None}

    def ld(name):
        k = re.match(r"(.*)@(-?\d+),(-?\d+),(-?\d+)$", name)
        if not k:
            return name
        o = [int(x) for x in k.groups()[1:]]
        o[d] += s
        return "%s@%d,%d,%d" % ((k.group(1),) + tuple(o))

    m["ld"] = ld
    for at in X.atoms(v):
        if at.op == "sym":
            k = re.match(r"n(\d)(?:@(-?\d+))?$", str(at.a[0]))
            if k and int(k.group(1)) == d:
                m[at.id] = sizesym(ev, d, int(k.group(2) or 0) + s)
    return X.subst(v, m, memo)


@model("MPI_Sendrecv_replace")
def _(ev, st, a, I, f):
    buf, n, ty, dst, stag, src, rtag, comm, _s = a
    sendrecv(ev, st, f, buf, n, ty, dst, stag, buf, n, ty, src, rtag, comm)
    return 0


@model("MPI_Sendrecv")
def _(ev, st, a, I, f):
    sb, sn, sty, dst, stag, rb, rn, rty, src, rtag, comm, _s = a
    sendrecv(ev, st, f, sb, sn, sty, dst, stag, rb, rn, rty, src, rtag, comm)
    return 0


def sendrecv(ev, st, f, sb, sn, sty, dst, stag, rb, rn, rty, src, rtag, comm):
    from .eval import Entry, Kern, PIte
    from .models import Ob, Unsupported

    cn = pname(ev, st, comm)
    nb = getattr(ev, "nbrs", {})
    D, S = nb.get(dst), nb.get(src)
    ev.event(st, f.name, (cn, D, S))

    def ob(what, x, y, kind="eq"):
        ev.oblig.append(Ob("message: " + what, x, y, st.g, ev.where(), kind, ev.facts))

    ok = D is not None and S is not None and D[0] == S[0] == cn and D[1] == S[1] and D[2] == -S[2]
    ob("what a process sends to its neighbour is what that neighbour receives from it (opposite partners on one communicator)", X.TRUE if ok else X.FALSE, X.TRUE, "bool")
    if not ok or ev.hooks.get("nocontents"):
        return
    ob("send and receive tags agree", ev.asint(stag), ev.asint(rtag))
    ob("send and receive counts agree", ev.asint(sn), ev.asint(rn))
    for t in (pname(ev, st, sty), pname(ev, st, rty)):
        ob("elements are doubles", X.TRUE if t.endswith("double") else X.FALSE, X.TRUE, "bool")

    def leaves(p, g):
        if isinstance(p, PIte):
            return leaves(p.a, X.band(g, p.c)) + leaves(p.b, X.band(g, X.bnot(p.c)))
        return [(g, p)] if g is not X.FALSE else []

    new = []
    for g, p in leaves(rb, st.g):
        for g2, q in leaves(sb, g):
            for x in (p, q):
                if not (isinstance(x, Ptr) and x.o.kind == "data" and x.off == 0):
                    raise Unsupported("message buffer %r is not the data of an array" % (x,))
            r, s = p.o.x, q.o.x
            size = 1
            for e in s.ext:
                size = X.imul(size, e)
            ev.oblig.append(Ob("message: the whole buffer is sent", ev.asint(sn), size, g2, ev.where(), "eq", ev.facts))
            for k in range(r.rank):
                ev.oblig.append(Ob("message: buffers have the same shape", r.ext[k], s.ext[k], g2, ev.where(), "eq", ev.facts))
            ds = [ev.new("m", "i") for _ in range(r.rank)]
            save = list(ev.facts)
            for k in range(r.rank):
                ev.fact(ds[k])
                ev.fact(X.isub(X.isub(r.ext[k], 1), ds[k]))
            v = shifted(ev, ev.vload(s.base, s.map(tuple(ds)), g2), S[1], S[2])
            ev.facts = save
            ev.fmemo = {}
            e = Entry()
            e.idx = r.map(tuple(ds))
            e.g = g2
            e.ctx, e.kern, e.where = tuple(ev.ctx), None, ev.where()
            e.quant = [(ds[k], 0, r.ext[k]) for k in range(r.rank)]
            e.val, e.src, e.lim = v, None, None
            new.append((r.base, e))
    for b, e in new:
        ev.push(b, e)


@model("MPI_Bcast")
def _(ev, st, a, I, f):
    """every process gets the value of the root; ev.at_root rewrites what this process would send into that"""
    buf, n, ty, root, comm = a
    ev.event(st, "MPI_Bcast", (root, pname(ev, st, comm), n, pname(ev, st, ty)))
    lt, sz = TYPE[pname(ev, st, ty)]
    if not isinstance(n, int) or n > 64:
        raise Unsupported("MPI_Bcast of a symbolic number of values")
    for k in range(n):
        v = ev.load(st, ev.padd(buf, k * sz), lt, sz)
        if hasattr(ev, "at_root"):
            v = ev.at_root(v, root)
        elif lt != "double":
            if isinstance(v, X.B):
                v = X.ite(v, 1, 0)
            v = X.iatom("fnI", "bcast:%s" % pname(ev, st, comm), root, v)
            if TYPE[pname(ev, st, ty)][1] == 1:
                ev.fact(v)
                ev.fact(X.isub(1, v))
        else:
            v = X.fn("bcast:%s:%s" % (root if isinstance(root, int) else X.show(root), pname(ev, st, comm)), v)
        ev.store(st, ev.padd(buf, k * sz), v, sz, lt)
    return 0


@model("MPI_Cart_rank")
def _(ev, st, a, I, f):
    """rank of the process with these coordinates"""
    c = [ev.load(st, ev.padd(a[1], 4 * d), "i32", 4) for d in range(3)]
    r = X.iatom("fnI", "rankof", *c)
    ev.fact(r)
    ev.store(st, a[2], r, 4, "i32")
    return 0
