"""Models of the HDF5 calls: identifiers and results are arbitrary; every call is logged."""
from . import expr as X
from .eval import Ptr, Str
from .models import rx


def note(ev, st, f, a, r=None):
    def val(x):
        try:
            if getattr(x, "o", None) is not None and x.o.kind in ("cstr", "glob"):
                return ev.cstr(st, x)
        except Exception:
            pass
        return x
    ev.event(st, "h5 " + f.dem.split("(")[0], (r,) + tuple(val(x) for x in a))


@rx(r"H5\w+$")
def _(ev, st, a, I, f):
    n = f.dem
    if I[2] == "void":
        note(ev, st, f, a)
        return 0
    ev.h5n = getattr(ev, "h5n", 0) + 1
    v = 0 if n in ("H5open", "H5check_version") else X.sym("%s#%d" % (n, ev.h5n), "i")
    if n == "H5Sget_simple_extent_dims":
        rank = getattr(ev, "h5rank", 8)
        p = a[1]
        if isinstance(p, Ptr) and isinstance(p.off, int) and isinstance(p.o.size, int) and p.o.size <= 1024:
            rank = (p.o.size - p.off) // 8
        for d in range(rank):
            ev.store(st, ev.padd(a[1], 8 * d), X.sym("dims#%d[%d]" % (ev.h5n, d), "i"), 8, "i64")
    note(ev, st, f, a, v)
    return v
