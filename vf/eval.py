"""Gated abstract interpreter over clang's -O0 IR: every function is turned into a value graph.

Control-flow joins merge states with guarded selects (gated SSA), so no path enumeration takes place.
Loops with constant trip counts are unrolled; other loops are summarised by a symbolic counter plus
recurrence (mu) symbols.  Kokkos operations (hv_*) are interpreted as quantified view updates.
"""
import re
import sys
from fractions import Fraction

from . import expr as X
from .expr import FALSE, TRUE, B, E, band, bite, bnot, bor, constrain, isconst

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("id", "kind", "name", "size", "x")
    n = 0

    def __init__(self, kind, name, size=None, x=None):
        Obj.n += 1
        self.id = Obj.n
        self.kind = kind
        self.name = name
        self.size = size
        self.x = x

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return "&%r+%s" % (self.o, X.show(self.off))

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.o is other.o and same(self.off, other.off)

    def __hash__(self):
        return hash((self.o.id, self.off if isconst(self.off) else self.off.id))


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "{%s?%r:%r}" % (X.showb(self.c), self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, PIte) and self.c is o.c and same(self.a, o.a) and same(self.b, o.b)

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))


class Str:
    """std::string / C string value: python str or a symbolic term"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Str) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Str(%s)" % (showterm(self.t),)


def showterm(t):
    if isinstance(t, str):
        return repr(t)
    if isinstance(t, tuple):
        return "%s(%s)" % (t[0], ",".join(showterm(x) for x in t[1:]))
    return X.show(t) if isinstance(t, (E, B)) else repr(t)


class Cat:
    """bytes assembled from differently typed parts"""

    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts = tuple(parts)
        self.size = size

    def __eq__(self, o):
        return isinstance(o, Cat) and self.size == o.size and len(self.parts) == len(o.parts) and all(
            p[0] == q[0] and p[1] == q[1] and same(p[2], q[2]) for p, q in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(self.size)


class Agg(tuple):
    pass


class Opaque:
    """a value of no arithmetic significance, identified by a term"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Opaque(%r)" % (self.t,)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULLO = Obj("null", "null")
NULL = Ptr(NULLO, 0)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (E, B)) or isinstance(b, (E, B)):
        return False
    if type(a) is not type(b):
        return False
    return a == b


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if same(a, b):
        return a
    if isinstance(a, B) or isinstance(b, B):
        a = a if isinstance(a, B) else bnot(X.ieq0(a))
        b = b if isinstance(b, B) else bnot(X.ieq0(b))
        return bite(c, a, b)
    if isinstance(a, (E, int)) and isinstance(b, (E, int)):
        ka, kb = X.kind(a), X.kind(b)
        if ka != kb:
            if ka == "i" and isinstance(a, int):
                a = X.fconst(X.bits2f(a))
            elif kb == "i" and isinstance(b, int):
                b = X.fconst(X.bits2f(b))
            else:
                return Opaque(("mix", a, b))
        return X.ite(c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            return Ptr(a.o, X.ite(c, a.off, b.off))
        if isinstance(a, PIte) and a.c is c:
            a = a.a
        if isinstance(b, PIte) and b.c is c:
            b = b.b
        if same(a, b):
            return a
        return PIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a) == len(b):
        return Agg(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(("ite", c, a.t, b.t))
    if isinstance(a, Cat) and isinstance(b, Cat) and [p[:2] for p in a.parts] == [p[:2] for p in b.parts]:
        return Cat([(p[0], p[1], vite(c, p[2], q[2])) for p, q in zip(a.parts, b.parts)], a.size)
    if isinstance(a, int) and isinstance(b, (Ptr, PIte)) and a == 0:
        return vite(c, NULL, b)
    if isinstance(b, int) and isinstance(a, (Ptr, PIte)) and b == 0:
        return vite(c, a, NULL)
    return Opaque(("ite", c, a, b))


# ----------------------------------------------------------------------------- memory


class Mem:
    __slots__ = ("tok", "cells", "dflt")

    def __init__(self, tok):
        self.tok = tok
        self.cells = {}
        self.dflt = ()  # (lo, hi, kind, payload), later wins

    def copy(self, tok):
        m = Mem(tok)
        m.cells = dict(self.cells)
        m.dflt = self.dflt
        return m


class State:
    __slots__ = ("mem", "tok", "g")

    def __init__(self):
        self.mem = {}
        self.tok = object()
        self.g = TRUE

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.g = self.g
        self.tok = object()
        return s

    def w(self, o):
        m = self.mem.get(o)
        if m is None:
            m = Mem(self.tok)
            self.mem[o] = m
        elif m.tok is not self.tok:
            m = m.copy(self.tok)
            self.mem[o] = m
        return m


class Base:
    """a Kokkos allocation"""

    __slots__ = ("name", "rank", "ext", "init", "label", "ety", "id")
    n = 0

    def __init__(self, name, rank, ext, init, label=""):
        Base.n += 1
        self.id = Base.n
        self.name, self.rank, self.ext, self.init, self.label = name, rank, ext, init, label
        self.ety = None

    def __repr__(self):
        return "View<%s>" % (self.name,)


class View:
    """index map: dims[k] = ('f', expr) fixed | ('d', j, off) j-th index of the view plus offset"""

    __slots__ = ("base", "dims", "rank", "ext")

    def __init__(self, base, dims, rank, ext):
        self.base, self.dims, self.rank, self.ext = base, dims, rank, ext

    def map(self, idx):
        return tuple(d[1] if d[0] == "f" else X.iadd(idx[d[1]], d[2]) for d in self.dims)


class Entry:
    __slots__ = ("idx", "val", "g", "quant", "src", "lim", "seq", "ctx", "where", "kern")


class Event:
    __slots__ = ("name", "args", "g", "where", "ctx", "seq", "info")

    def __repr__(self):
        return "%s%r if %s @%s" % (self.name, self.args, X.showb(self.g), self.where)


class Kern:
    __slots__ = ("label", "kind", "syms", "dom", "g", "reads", "writes", "where", "fn", "reds", "id", "writes_mem")


HOOK = {}  # string functions of the models


class Loop:
    __slots__ = ("exits", "sym", "lo", "hi", "step", "id", "where", "cells", "prev", "rec", "cond", "closed", "start", "chars")


ITY = re.compile(r"^i(\d+)$")


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def uns(v, w):
    return v & ((1 << w) - 1)


class Eval:
    def __init__(self, prog, models=None):
        from . import models as M

        M.CUR[0] = self

        self.p = prog
        self.models = M.TABLE if models is None else models
        self.regexes = M.REGEX
        self.mcache = {}
        self.events = []
        self.hist = {}  # Base -> [Entry]
        self.bases = []
        self.globs = {}
        self.syms = {}  # name -> Obj
        self.elems = {}
        self.viewobj = {}  # Obj -> View
        self.ctx = []  # active kernels / symbolic loops
        self.stack = []  # call stack (Func, line)
        self.seq = 0
        self.fresh = 0
        self.facts = []  # polynomials known >= 0
        self.fmemo = {}
        self.positive = set()
        self.kernels = []
        self.loops = []
        self.oblig = []
        self.unroll = 7
        self.max_const = 20000
        self.steps = 0
        self.inlined = set()
        self.opaque_calls = {}
        self.hooks = {}
        self.strcells = {}  # what was last read through an iterator
        self.cases = {}  # values of named strings in the case under study
        self.opaque = {}
        self.opaque_hit = set()
        self.virt = {}  # type -> chosen implementations ; None = event
        self.warn = []
        self.expect = None
        self.noinline = None
        self.kcount = 0
        self.carried = []
        self.fill_hist = {}

    # ------------------------------------------------------------------ naming
    def new(self, pfx, kind="f"):
        self.fresh += 1
        return X.sym("%s#%d" % (pfx, self.fresh), kind)

    def symobj(self, name):
        o = self.syms.get(name)
        if o is None:
            o = Obj("sym", name)
            self.syms[name] = o
        return o

    def where(self):
        out = []
        for f, ln in reversed(self.stack):
            fn = f.file
            if "/stubs/" in fn or "/usr/" in fn or not fn:
                continue
            out.append("%s:%s (%s)" % (fn.replace("/repo/", ""), ln[0], shortname(f.dem)))
            if len(out) == 2:
                break
        return " < ".join(out)

    # ------------------------------------------------------------------ globals
    def glob(self, name, mod):
        n = self.p.resolve(name, mod)
        o = self.globs.get(n)
        if o is not None:
            return o
        if n in self.p.funcs:
            o = Obj("fn", n)
        else:
            g = self.p.globals.get(n)
            o = Obj("glob", n, g["size"] if g else None, g)
        self.globs[n] = o
        return o

    def gmem(self, o):
        """initial memory of a global"""
        m = Mem(None)
        g = o.x
        if g is None or "init" not in g:
            m.dflt = ((0, 1 << 40, "sym", (o.name, 0)),)
            return m
        m.dflt = ((0, max(g["size"], 1), "zero", None),)
        self.fillconst(m, 0, g["init"], g["ty"], g["mod"])
        return m

    def fillconst(self, m, off, c, ty, mod):
        t = c[0]
        if t == "zero" or t == "undef":
            return
        if t == "str":
            bs = bytes.fromhex(c[1])
            for i, b in enumerate(bs):
                if b:
                    m.cells[off + i] = (1, b if b < 128 else b - 256)
            return
        if t == "agg":
            offs = layout(c[1])
            for e, (o2, t2) in zip(c[2:], offs):
                self.fillconst(m, off + o2, e, t2, mod)
            return
        sz = tysize(ty)
        m.cells[off] = (sz, self.const(c, mod))

    # ------------------------------------------------------------------ operands
    def const(self, c, mod):
        t = c[0]
        if t == "i":
            if c[1] == 1:
                return TRUE if c[2] else FALSE
            return int(c[2])
        if t == "f":
            return X.fconst(X.bits2f(c[1]))
        if t == "null":
            return NULL
        if t == "undef":
            return zero_of(c[1], UNDEF)
        if t == "zero":
            return zero_of(c[1], None)
        if t == "g":
            return Ptr(self.glob(c[1], mod), c[2])
        if t == "cast":
            return self.const(c[2], mod)
        if t == "agg":
            return Agg(self.const(e, mod) for e in c[2:])
        if t == "md":
            return Opaque(("md", c[1]))
        if t == "ce":
            return Opaque(("ce", repr(c)))
        return Opaque(("const", repr(c)))

    # ------------------------------------------------------------------ memory access
    def getmem(self, st, o):
        m = st.mem.get(o)
        if m is None:
            if o.kind == "glob":
                m = self.gmem(o)
            elif o.kind == "sym":
                m = Mem(None)
                m.dflt = ((-(1 << 40), 1 << 40, "sym", (o.name, 0)),)
            else:
                m = Mem(None)
            st.mem[o] = m
        return m

    def wmem(self, st, o):
        self.getmem(st, o)
        return st.w(o)

    def dflt(self, m, off, ty, size):
        for lo, hi, k, pl in reversed(m.dflt):
            if lo <= off and off + size <= hi:
                if k == "zero":
                    return zero_of(ty, None) if ty else 0
                if k == "sym":
                    return self.symval("%s+%d" % (pl[0], off + pl[1]), ty)
                if k == "ff":
                    return -1
        return UNDEF

    def symval(self, name, ty):
        if ty == "f64" or ty == "f32":
            return X.sym(name)
        if ty == "ptr":
            return Ptr(self.symobj(name), 0)
        if ty == "str":
            return Str(("str", name))
        if ty and ITY.match(ty):
            return X.sym(name, "i")
        if ty and ty[0] in "{[<":
            return Opaque(("agg", name))
        return X.sym(name, "i")

    def load(self, st, p, ty, size):
        if isinstance(p, PIte):
            return vite(p.c, self.load(st, p.a, ty, size), self.load(st, p.b, ty, size))
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        o = p.o
        k = o.kind
        if k == "elem":
            return self.coerce(self.vload_elem(st, o, p.off, ty), ty)
        if k == "null":
            self.warn.append("null dereference at " + self.where())
            return self.symval("null+%s" % p.off, ty)
        if k == "cstr":
            return self.cstrload(o, p.off)
        if k in ("fn", "view", "data"):
            if k == "data":
                return self.hooks_load_data(st, o, p.off, ty)
            return self.symval("%s+%s" % (o.name, X.show(p.off)), ty)
        m = self.getmem(st, o)
        off = p.off
        if not isconst(off):
            off = self.simp(off)
        if not isconst(off):
            return self.load_symoff(st, o, m, off, ty, size)
        return self.load_at(m, off, ty, size)

    def cstrload(self, o, off):
        if isinstance(o.x, str) and isconst(off):
            bs = o.x.encode("latin1", "replace") + b"\0"
            return bs[off] if 0 <= off < len(bs) else UNDEF
        if isinstance(o.x, tuple) and o.x[0] == "ite":
            return X.ite(o.x[1], self.cstrload(Obj("cstr", "", None, o.x[2]), off), self.cstrload(Obj("cstr", "", None, o.x[3]), off))
        return X.iatom("chr", o.x if isinstance(o.x, (E, B, int)) else repr(o.x), off)

    def load_at(self, m, off, ty, size):
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], ty)
        if ty and ty[0] in "{[":
            return Agg(self.load_at(m, off + o2, t2, tysize(t2)) for o2, t2 in layout(ty))
        # any overlapping cells?
        ov = self.overlap(m, off, size)
        if not ov:
            return self.coerce(self.dflt(m, off, ty, size), ty)
        if c is not None and c[0] > size:
            return self.coerce(self.part(c[1], c[0], 0, size), ty)
        for o2 in ov:
            s2, v2 = m.cells[o2]
            if o2 <= off and o2 + s2 >= off + size:
                return self.coerce(self.part(v2, s2, off - o2, size), ty)
        parts = []
        pos = off
        for o2 in ov:
            s2, v2 = m.cells[o2]
            if o2 < off or o2 + s2 > off + size:
                return UNDEF
            if o2 > pos:
                parts.append((pos - off, o2 - pos, self.dflt(m, pos, "i%d" % (8 * (o2 - pos)), o2 - pos)))
            parts.append((o2 - off, s2, v2))
            pos = o2 + s2
        if pos < off + size:
            parts.append((pos - off, off + size - pos, self.dflt(m, pos, "i%d" % (8 * (off + size - pos)), off + size - pos)))
        return self.coerce(self.mkcat(parts, size), ty)

    def mkcat(self, parts, size):
        parts = [q for q in parts if q[2] is not UNDEF]
        if not parts:
            return UNDEF
        if all(isinstance(q[2], int) for q in parts) and sum(q[1] for q in parts) == size:
            v = 0
            for o, s, x in parts:
                v |= uns(x, 8 * s) << (8 * o)
            return wrap(v, 8 * size)
        return Cat(parts, size)

    def part(self, v, vs, off, size):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return wrap(uns(v, 8 * vs) >> (8 * off), 8 * size)
        if isinstance(v, Cat):
            for o, s, x in v.parts:
                if o == off and s == size:
                    return x
                if o <= off and o + s >= off + size:
                    return self.part(x, s, off - o, size)
            return self.mkcat([(o - off, s, x) for o, s, x in v.parts if o >= off and o + s <= off + size], size)
        if isinstance(v, E) and v.k == "f" and v.op == "c" and v.a[0] == 0:
            return 0
        if isinstance(v, E) and v.k == "i" and off == 0:
            return v
        if isinstance(v, E) and v.op == "ip" and len(v.a) == 1 and not isconst(v):
            return X.iatom("byte", v, off, size)
        return Opaque(("part", v, off, size))

    def overlap(self, m, off, size):
        cells = m.cells
        if len(cells) < 48:
            r = [o for o, (s, _) in cells.items() if o < off + size and o + s > off]
        else:
            r = [o for o in range(off - 40, off + size) if o in cells and o + cells[o][0] > off]
        r.sort()
        return r

    def coerce(self, v, ty):
        if v is UNDEF or ty is None:
            return v
        if ty in ("f64", "f32"):
            if isinstance(v, int):
                return X.fconst(X.bits2f(v))
            if isinstance(v, E) and v.k == "i":
                it = X._only_ite(v)
                if it is not None:
                    return X.ite(it.a[0], self.coerce(it.a[1], ty), self.coerce(it.a[2], ty))
                if len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0].op == "bits":
                    return v.a[0][0][0].a[0]
                return X.mk("ld", ("bits", v), "f")
            return v
        if ty == "ptr":
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, E) and v.k == "i" and v.op == "ip" and len(v.a) == 1 and v.a[0][0][0].op == "sym":
                return Ptr(self.symobj(v.a[0][0][0].a[0]), 0)
            return v
        if ITY.match(ty):
            if isinstance(v, B):
                return X.ite(v, 1, 0)
            if isinstance(v, E) and v.k == "f":
                if v.op == "c" and v.a[0] == 0:
                    return 0
                return X.iatom("bits", v)
            if isinstance(v, Ptr) and v.o is NULLO:
                return v
        return v

    def cands(self, m, o, off, size):
        """candidate constant offsets of a symbolic offset: c + s*x within the object"""
        if off.op != "ip":
            return None
        c = 0
        s = 0
        for mono, k in off.a:
            if mono == ():
                c = k
            else:
                s = abs(k) if s == 0 else __import__("math").gcd(s, abs(k))
        end = o.size if o.size is not None and isconst(o.size) else None
        if end is None or o.kind == "sym":
            ks = [x for x in m.cells]
            if not ks:
                return None
            lo, hi = min(ks), max(ks) + size
        else:
            lo, hi = 0, end
        lo0 = lo + ((c - lo) % s)
        r = list(range(lo0, hi - size + 1, s))
        return r if len(r) <= 64 else None

    def load_symoff(self, st, o, m, off, ty, size):
        it = X._only_ite(off)
        if it is not None:
            a = self.load(st, Ptr(o, it.a[1]), ty, size)
            b = self.load(st, Ptr(o, it.a[2]), ty, size)
            return vite(it.a[0], a, b)
        if o.kind == "glob" and ty == "i8" and not o.x.get("const", False) is None and o.x and "init" in o.x and o.size and o.size > 64:
            return X.iatom("gch", o.name, off)
        if o.kind == "strit":
            return self.strchar(st, o, off)
        cs = self.cands(m, o, off, size)
        if not cs:
            if o.kind == "sym":
                return self.symarr(o, off, ty)
            if o.kind == "heap" and m.dflt and m.dflt[-1][2] == "arr":
                return self.symarr(o, off, ty)
            raise Unsupported("load at symbolic offset %s of %r (%s)" % (X.show(off), o, self.where()))
        r = None
        for k in reversed(cs):
            v = self.load_at(m, k, ty, size)
            cond = self.simpb(X.ieq0(X.isub(off, k)), st.g)
            r = v if r is None else vite(cond, v, r)
        return r

    def strchar(self, st, o, off):
        t = self.getstr(st, o.x)
        self.strcells[o] = t
        return X.iatom("chr", "char:%r" % (t,), off)

    def charmaps(self, L, s, g0):
        """a loop that changes the case of every character of a string"""
        for o, off, v, g in L.chars:
            t = self.getstr(s, o.x)
            k = HOOK["case"](v, self.strchar(s, o, off))
            whole = L.hi is not None and self.simp(X.isub(L.hi, HOOK["strlen"](self, t))) == 0
            if k is None or len(L.chars) > 1 or not whole or off != L.sym or constrain(g, g0) not in (TRUE, constrain(L.cond, g0)):
                raise Unsupported("loop over the characters of a string at %s" % (L.where,))
            self.setstr(s, o.x, HOOK["recase"](k, t))

    def symarr(self, o, off, ty):
        nm = "%s[]" % (o.name,)
        if ty == "f64":
            return X.mk("ld", (nm, off), "f")
        if ty == "ptr":
            return Ptr(self.symobj("%s[%s]" % (o.name, X.show(off))), 0)
        if ty == "str":
            return Str(("arr", nm, off))
        return X.iatom("ld", nm, off)

    def store(self, st, p, v, size, ty=None):
        if isinstance(p, PIte):
            for c, q in leaves(p):
                c = constrain(c, st.g) if st.g is not FALSE else c
                if c is FALSE:
                    continue
                if c is TRUE:
                    self.store(st, q, v, size, ty)
                else:
                    old = self.load(st, q, ty, size)
                    self.store(st, q, vite(c, v, old), size, ty)
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        o = p.o
        if o.kind == "elem":
            self.vstore_elem(st, o, p.off, v)
            return
        if o.kind in ("null", "fn", "view", "cstr"):
            self.warn.append("store to %r at %s" % (o, self.where()))
            return
        if o.kind == "data":
            raise Unsupported("store through view data pointer at " + self.where())
        if isinstance(v, Agg) and ty and ty[0] in "{[":
            for x, (o2, t2) in zip(v, layout(ty)):
                self.store(st, Ptr(o, X.iadd(p.off, o2)), x, tysize(t2), t2)
            return
        off = p.off
        if not isconst(off):
            off = self.simp(off)
        if o.kind == "strit":
            L = self.ctx[-1] if self.ctx else None
            if not isinstance(L, Loop):
                self.setstr(st, o.x, ("charset", self.getstr(st, o.x), X.show(off), X.show(v)))
                return
            L.chars.append((o, off, v, st.g))
            return
        m = self.wmem(st, o)
        if not isconst(off):
            it = X._only_ite(off)
            if it is not None:
                self.store(st, PIte(it.a[0], Ptr(o, it.a[1]), Ptr(o, it.a[2])), v, size, ty)
                return
            cs = self.cands(m, o, off, size)
            if not cs:
                if o.kind in ("sym", "heap"):
                    self.event(st, "store_sym", (o.name, off, v))
                    return
                raise Unsupported("store at symbolic offset %s of %r (%s)" % (X.show(off), o, self.where()))
            for k in cs:
                cond = self.simpb(X.ieq0(X.isub(off, k)), st.g)
                if cond is FALSE:
                    continue
                self.store_at(m, k, vite(cond, v, self.load_at(m, k, ty, size)), size)
            return
        self.store_at(m, off, v, size)

    def store_at(self, m, off, v, size):
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            m.cells[off] = (size, v)
            return
        for o2 in self.overlap(m, off, size):
            s2, v2 = m.cells.pop(o2)
            if o2 < off:
                m.cells[o2] = (off - o2, self.part(v2, s2, 0, off - o2))
            if o2 + s2 > off + size:
                m.cells[off + size] = (o2 + s2 - off - size, self.part(v2, s2, off + size - o2, o2 + s2 - off - size))
        if isinstance(v, Cat):
            for o3, s3, x in v.parts:
                m.cells[off + o3] = (s3, x)
            return
        m.cells[off] = (size, v)

    def fill(self, st, p, size, kind, payload=None):
        """set a byte range to a default ('zero'/'undef'/'sym')"""
        m = self.wmem(st, p.o)
        off = p.off
        for o2 in list(m.cells):
            s2 = m.cells[o2][0]
            if o2 < off + size and o2 + s2 > off:
                s2, v2 = m.cells.pop(o2)
                if o2 < off:
                    m.cells[o2] = (off - o2, self.part(v2, s2, 0, off - o2))
                if o2 + s2 > off + size:
                    m.cells[off + size] = (o2 + s2 - off - size, self.part(v2, s2, off + size - o2, o2 + s2 - off - size))
        m.dflt = tuple(d for d in m.dflt if not (off <= d[0] and d[1] <= off + size)) + ((off, off + size, kind, payload),)

    def memcpy(self, st, d, s, n):
        if isinstance(d, PIte):
            raise Unsupported("memcpy to a merged pointer at " + self.where())
        if isinstance(s, PIte):
            # copy element-wise through merged loads: use the cells of both leaves
            a, b = st.fork(), st.fork()
            self.memcpy(a, d, s.a, n)
            self.memcpy(b, d, s.b, n)
            ma, mb = a.mem[d.o], b.mem[d.o]
            st.mem[d.o] = self.merge_mem(ma, mb, s.c, d.o, st.tok)
            return
        if not isconst(n):
            n = self.simp(n)
        if not (isconst(n) and isconst(d.off) and isconst(s.off)):
            if self.hooks.get("memcpy"):
                return self.hooks["memcpy"](self, st, d, s, n)
            self.event(st, "memcpy", (d, s, n))
            return
        if n == 0 or (s.o is d.o and s.off == d.off):
            return
        if s.o.kind == "elem" or d.o.kind == "elem":
            self.store(st, d, self.load(st, s, "f64", 8), 8, "f64")
            return
        if s.o.kind == "cstr":
            t = s.o.x
            if isinstance(t, str):
                for i, ch in enumerate((t + "\0")[s.off:s.off + n]):
                    self.store(st, Ptr(d.o, d.off + i), ord(ch), 1, "i8")
                return
            self.event(st, "memcpy", (d, s, n))
            return
        ms = self.getmem(st, s.o)
        cells = []
        for o2, (s2, v2) in ms.cells.items():
            if o2 >= s.off and o2 + s2 <= s.off + n:
                cells.append((o2 - s.off, s2, v2))
            elif o2 < s.off + n and o2 + s2 > s.off:
                lo, hi = max(o2, s.off), min(o2 + s2, s.off + n)
                cells.append((lo - s.off, hi - lo, self.part(v2, s2, lo - o2, hi - lo)))
        dl = []
        for lo, hi, k, pl in ms.dflt:
            l2, h2 = max(lo, s.off), min(hi, s.off + n)
            if l2 < h2:
                sh = d.off - s.off
                dl.append((l2 + sh, h2 + sh, k, (pl[0], pl[1] - sh) if k == "sym" else pl))
        self.fill(st, d, n, "undef")
        m = self.wmem(st, d.o)
        m.dflt = m.dflt + tuple(dl)
        for o2, s2, v2 in cells:
            m.cells[d.off + o2] = (s2, v2)

    # ------------------------------------------------------------------ merging
    def merge_mem(self, m1, m2, c, o, tok):
        if m1 is m2:
            return m1
        m = Mem(tok)
        d1, d2 = m1.dflt, m2.dflt
        if d1 == d2:
            m.dflt = d1
        else:
            # common prefix, then undef-kind differences are ignored
            e1 = tuple(d for d in d1 if d[2] != "undef")
            e2 = tuple(d for d in d2 if d[2] != "undef")
            m.dflt = e1 if len(e1) >= len(e2) else e2
            if e1 != e2 and e1 and e2:
                short = e1 if len(e1) < len(e2) else e2
                if m.dflt[: len(short)] != short:
                    m.dflt = tuple(dict.fromkeys(e1 + e2))
        keys = set(m1.cells) | set(m2.cells)
        for off in keys:
            a, b = m1.cells.get(off), m2.cells.get(off)
            if a is not None and b is not None and a[0] == b[0]:
                m.cells[off] = (a[0], vite(c, a[1], b[1]))
                continue
            sz = min(x[0] for x in (a, b) if x is not None)
            ty = guess_ty(a, b, sz)
            va = self.load_at(m1, off, ty, sz)
            vb = self.load_at(m2, off, ty, sz)
            m.cells[off] = (sz, vite(c, va, vb))
        return m

    def merge(self, lst):
        """lst: [(state, [values])] -> (state, [values])"""
        lst = [x for x in lst if x[0].g is not FALSE]
        if not lst:
            return None
        acc, vals = lst[0]
        for st, vs in lst[1:]:
            G = bor(acc.g, st.g)
            c = constrain(acc.g, G)
            vals = [vite(c, a, b) for a, b in zip(vals, vs)]
            r = State()
            r.g = G
            for o in acc.mem.keys() | st.mem.keys():
                m1, m2 = acc.mem.get(o), st.mem.get(o)
                if m1 is m2:
                    r.mem[o] = m1
                elif m1 is None or m2 is None:
                    if o.kind in ("glob", "sym"):
                        m1 = m1 if m1 is not None else self.getmem(acc, o)
                        m2 = m2 if m2 is not None else self.getmem(st, o)
                        r.mem[o] = self.merge_mem(m1, m2, c, o, r.tok)
                    else:
                        r.mem[o] = m1 if m1 is not None else m2
                else:
                    r.mem[o] = self.merge_mem(m1, m2, c, o, r.tok)
            acc = r
        return acc, vals

    # ------------------------------------------------------------------ integer facts
    def fact(self, d):
        """assert d >= 0"""
        if isconst(d):
            return
        self.facts.append(d)
        self.fmemo = {}

    def nonneg(self, d):
        """can d >= 0 be derived?  (linear combination of at most three facts)"""
        if isconst(d):
            return d >= 0
        key = d.id
        r = self.fmemo.get(key)
        if r is None:
            r = self._nonneg(d, 3)
            self.fmemo[key] = r
        return r

    def _nonneg(self, d, depth):
        if isconst(d):
            return d >= 0
        if depth == 0:
            return False
        # pick a fact that cancels a negative-coefficient monomial or any monomial with matching sign
        dm = dict(d.a)
        for f in self.facts:
            fm = f.a
            for mono, k in fm:
                if mono == ():
                    continue
                ck = dm.get(mono)
                if ck is not None and (ck > 0) == (k > 0) and ck % k == 0:
                    lam = ck // k
                    if self._nonneg(X.isub(d, X.imul(f, lam)), depth - 1):
                        return True
        # ite atoms: both branches
        for mono, k in d.a:
            for at in mono:
                if at.op == "ite" and len(mono) == 1:
                    base = X.isub(d, X._ip({mono: k}))
                    return self._nonneg(X.iadd(base, X.imul(at.a[1], k)), depth) and self._nonneg(X.iadd(base, X.imul(at.a[2], k)), depth)
        return False

    def simpb(self, b, g=TRUE):
        """simplify a guard under the integer facts and a path guard"""
        if b.id < 2:
            return b
        if g is not TRUE and g is not FALSE:
            b = constrain(b, g)
        if b.id < 2:
            return b
        memo = {}

        def go(n):
            if n.id < 2:
                return n
            r = memo.get(n.id)
            if r is not None:
                return r
            d = X.VARS[n.v]
            t = None
            if d[0] in ("IL", "IE"):
                a = self.simp(d[1])
                if a is not d[1]:
                    c = self.simpb(X.ilt0(a) if d[0] == "IL" else X.ieq0(a))
                    r = memo[n.id] = X.bite(c, go(n.hi), go(n.lo)) if c.id > 1 else go(n.hi if c is TRUE else n.lo)
                    return r
            if d[0] == "IL":
                if self.nonneg(X.isub(-1, d[1])):
                    t = True
                elif self.nonneg(d[1]):
                    t = False
            elif d[0] == "IE":
                if self.nonneg(X.isub(d[1], 1)) or self.nonneg(X.isub(-1, d[1])):
                    t = False
            if t is True:
                r = go(n.hi)
            elif t is False:
                r = go(n.lo)
            else:
                r = bite(X._bnode(n.v, FALSE, TRUE), go(n.hi), go(n.lo))
            memo[n.id] = r
            return r

        return go(b)

    def simp(self, i):
        """integer expression with selects decided by the facts"""
        if isconst(i):
            return i
        for mono, k in i.a:
            for at in mono:
                if at.op == "ite":
                    c = self.simpb(at.a[0])
                    if c.id < 2:
                        base = X.isub(i, X._ip({mono: k}))
                        rest = tuple(x for x in mono if x is not at)
                        t = X._ip({rest: k}) if rest else k
                        v = at.a[1] if c is TRUE else at.a[2]
                        return self.simp(X.iadd(base, X.imul(t, v)))
        return i

    # ------------------------------------------------------------------ views
    def view_of(self, h, rank=None):
        if not isinstance(h, Ptr):
            raise Unsupported("view handle %r at %s" % (h, self.where()))
        v = self.viewobj.get(h.o)
        if v is None:
            if h.o.kind == "sym":
                b = Base(h.o.name, rank, None, ("sym", h.o.name), h.o.name)
                self.bases.append(b)
                v = View(b, None, rank, None)
                self.viewobj[h.o] = v
            elif h.o.kind == "null":
                raise Unsupported("null view used at " + self.where())
            else:
                raise Unsupported("not a view handle: %r at %s" % (h, self.where()))
        if v.rank is None and rank is not None:
            v.rank = rank
        if v.dims is None and v.rank is not None:
            v.base.rank = v.rank
            v.base.ext = tuple(self.symext(v.base, r) for r in range(v.rank))
            v.dims = tuple(("d", r, 0) for r in range(v.rank))
            v.ext = v.base.ext
        return v

    def symext(self, b, r):
        e = X.sym("ext%d(%s)" % (r, b.name), "i")
        self.fact(X.isub(e, 1))
        return e

    def mkview(self, view, name):
        o = Obj("view", name)
        self.viewobj[o] = view
        return Ptr(o, 0)

    def elem(self, base, idx):
        key = (base,) + tuple(i if isconst(i) else ("e", i.id) for i in idx)
        o = self.elems.get(key)
        if o is None:
            o = Obj("elem", base.name, None, (base, idx))
            self.elems[key] = o
        return Ptr(o, 0)

    def kern(self):
        for c in reversed(self.ctx):
            if isinstance(c, Kern):
                return c
        return None

    def vload_elem(self, st, o, off, ty):
        base, idx = o.x
        if off != 0:
            if isconst(off) and idx and off % 8 == 0:
                idx = idx[:-1] + (X.iadd(idx[-1], off // 8),)
            else:
                raise Unsupported("pointer arithmetic on a view element at " + self.where())
        if "access" in self.hooks:
            self.hooks["access"](st, base, idx, False)
        k = self.kern()
        if k is not None:
            k.reads.append((base, idx, st.g, self.where(), tuple(self.ctx)))
        elif self.ctx or True:
            self.on_host_access(st, base, idx, False)
        return self.vload(base, idx, st.g, ty)

    def on_host_access(self, st, base, idx, w):
        h = self.hooks.get("host_access")
        if h:
            h(self, st, base, idx, w)

    def vstore_elem(self, st, o, off, v):
        base, idx = o.x
        if off != 0:
            raise Unsupported("pointer arithmetic on a view element at " + self.where())
        if "access" in self.hooks:
            self.hooks["access"](st, base, idx, True)
        e = Entry()
        e.idx, e.val, e.g, e.src, e.lim = idx, v, st.g, None, None
        e.ctx = tuple(self.ctx)
        e.quant = None
        e.where = self.where()
        k = self.kern()
        e.kern = k
        if k is not None:
            k.writes.append((base, idx, st.g, e.where, v, e.ctx))
        else:
            self.on_host_access(st, base, idx, True)
        self.push(base, e)

    def push(self, base, e):
        self.seq += 1
        e.seq = self.seq
        self.hist.setdefault(base, []).append(e)

    def quantified(self, e):
        """(sym, lo, hi) of the contexts the entry was made in that are no longer active"""
        q = []
        for c in e.ctx:
            if c in self.ctx:
                continue
            if isinstance(c, Kern):
                for s, (lo, hi) in zip(c.syms, c.dom):
                    q.append((s, lo, hi))
            else:
                q.append((c.sym, c.lo, c.hi))
        if e.quant:
            q.extend(e.quant)
        return q

    def match(self, e, idx, g, q=None):
        """condition under which entry e covers idx, and the substitution -> (cond, submap) or None"""
        if q is None:
            q = self.quantified(e)
        unknown = {}
        for s, lo, hi in q:
            unknown[atom_of(s).id] = (s, lo, hi)
        sub = {}
        resid = list(zip(e.idx, idx))
        progress = True
        while progress and resid:
            progress = False
            rest = []
            for a, b in resid:
                a2 = X.subst(a, sub) if sub else a
                tgt = None
                if not isconst(a2):
                    for mono, k in a2.a:
                        if len(mono) == 1 and mono[0].id in unknown and mono[0].id not in sub and k in (1, -1):
                            others = X.isub(a2, X._ip({mono: k}))
                            if not any(x.id == mono[0].id for x in X.atoms(others)) and not any(
                                    x.id in unknown and x.id not in sub for x in X.atoms(others)):
                                tgt = (mono[0].id, X.imul(X.isub(b, others), k))
                                break
                if tgt:
                    sub[tgt[0]] = tgt[1]
                    progress = True
                else:
                    rest.append((a2, b))
            resid = rest
        cond = TRUE
        for a, b in resid:
            a2 = X.subst(a, sub) if sub else a
            cond = band(cond, X.ieq0(X.isub(a2, b)))
            if cond is FALSE:
                return None
        free = [i for i in unknown if i not in sub]
        for i, (s, lo, hi) in unknown.items():
            if i in free:
                lo2, hi2 = X.subst(lo, sub), X.subst(hi, sub)
                cond = band(cond, X.icmp("slt", lo2, hi2))
                continue
            v = sub[i]
            if lo is not None:
                cond = band(cond, X.icmp("sge", v, X.subst(lo, sub)))
            if hi is not None:
                cond = band(cond, X.icmp("slt", v, X.subst(hi, sub)))
        gg = X.bsubst(e.g, sub, {}) if sub else e.g
        if g is not FALSE:
            gg = constrain(gg, g)
        cond = self.simpb(band(cond, gg), g)
        if cond is FALSE:
            return None
        return cond, sub, free

    def vload(self, base, idx, g, ty=None, lim=None, q_extra=()):
        h = self.hist.get(base, ())
        chain = []
        res = None
        idx = tuple(self.simp(i) for i in idx)
        n = len(h) if lim is None else min(lim, len(h))
        loops = [c for c in reversed(self.ctx) if isinstance(c, Loop) and c.prev and c.prev.get(base) and c.start.get(base, 0) <= n]
        for pos in range(n - 1, -2, -1):
            while loops and pos < loops[0].start.get(base, 0):
                # values carried from earlier iterations of an enclosing symbolic loop
                res = self.carry(loops.pop(0), base, idx, g, ty, chain)
                if res is not None:
                    break
            if res is not None or pos < 0:
                break
            e = h[pos]
            m = self.match(e, idx, g)
            if m is None:
                continue
            cond, sub, free = m
            v = self.entry_val(e, sub, g)
            if free:
                at = X.atoms(v) if isinstance(v, (E,)) else set()
                ga = X.atoms(e.g)
                last = self.last_iteration(e, sub, free) if not any(a.id in free for a in ga) else None
                if any(a.id in free for a in at) and last is not None:
                    v = self.entry_val(e, last, g)
                elif any(a.id in free for a in at) or any(a.id in free for a in ga):
                    if e.kern is None:
                        # sequential loop without dependence of the index on the counter: last iteration wins
                        v = X.mk("ld", ("last-iteration", e.seq, v), "f")
                    else:
                        v = X.mk("ld", ("racy", e.seq, v), "f")
            chain.append((cond, v))
            if cond is TRUE:
                res = v
                break
        if res is None:
            res = self.base_val(base, idx, ty)
        for cond, v in reversed(chain):
            if cond is TRUE:
                continue
            res = vite(cond, v, res)
        return res

    def carry(self, c, base, idx, g, ty, chain):
        """value at the start of an iteration: -> value when certain, else None with the cases appended to chain"""
        isint = ty and ITY.match(ty)
        nm = "carried:%s:%s" % (base.name, X.show(c.sym))
        if not idx and base in c.closed:
            return c.closed[base]
        cv = X.iatom("ld", nm, *idx) if isint else X.mk("ld", (nm,) + tuple(idx), "f")
        if not idx and isint:
            return cv
        for e in reversed(c.prev[base]):
            k2 = X.sym("prev(%s)" % X.show(c.sym), "i")
            m2 = {atom_of(c.sym).id: k2}
            e2 = Entry()
            e2.idx = tuple(X.subst(i, m2) for i in e.idx)
            e2.g = X.bsubst(e.g, m2, {})
            e2.val, e2.src, e2.lim, e2.seq, e2.ctx, e2.kern = e.val, None, None, e.seq, e.ctx, e.kern
            e2.quant = None
            q = [(s, lo, hi) for s, lo, hi in self.quantified(e) if s is not c.sym]
            q.append((k2, c.lo, c.sym))
            mm = self.match(e2, idx, g, q)
            if mm is not None:
                self.carried.append((base, idx, self.where()))
                chain.append((mm[0], cv))
                if mm[0] is TRUE:
                    return cv
        return None

    def last_iteration(self, e, sub, free):
        """the free counters belong to sequential loops of known length: the last iteration wins"""
        m = dict(sub)
        for c in e.ctx:
            if isinstance(c, Loop) and c not in self.ctx and atom_of(c.sym).id in free:
                if c.hi is None:
                    return None
                m[atom_of(c.sym).id] = X.isub(X.subst(c.hi, sub), 1)
        return m if all(i in m for i in free) else None

    def entry_val(self, e, sub, g):
        if e.src is not None:
            sb, sidx = e.src
            idx = tuple(X.subst(i, sub) for i in sidx)
            # the copy reads the source as it was
            save = self.ctx
            self.ctx = [c for c in self.ctx]
            r = self.vload(sb, idx, g, None, e.lim)
            self.ctx = save
            return r
        v = e.val
        if sub:
            v = vsubst(v, sub)
        return v

    def base_val(self, base, idx, ty):
        if base.init[0] == "zero":
            if ty and ty != "f64":
                return 0
            return X.ZERO
        if base.init[0] == "fn":
            return base.init[1](idx)
        if ty and ITY.match(ty):
            return X.iatom("ld", base.init[1], *idx)
        return X.mk("ld", (base.init[1],) + tuple(idx), "f")

    # ------------------------------------------------------------------ events
    def event(self, st, name, args=(), info=None):
        ev = Event()
        ev.name, ev.args, ev.g, ev.where, ev.ctx, ev.info = name, args, st.g, self.where(), tuple(self.ctx), info
        self.seq += 1
        ev.seq = self.seq
        self.events.append(ev)
        return ev

    def mark(self):
        return (len(self.events), {b: len(h) for b, h in self.hist.items()}, len(self.kernels), len(self.loops), len(self.oblig), self.seq, self.fresh,
                list(self.facts), len(self.ctx), len(self.warn), [(k, len(k.reads), len(k.writes)) for k in self.ctx if isinstance(k, Kern)])

    def rollback(self, mk):
        del self.events[mk[0]:]
        for b in list(self.hist):
            n = mk[1].get(b, 0)
            del self.hist[b][n:]
        del self.kernels[mk[2]:]
        del self.loops[mk[3]:]
        del self.oblig[mk[4]:]
        self.seq = mk[5]
        self.facts = list(mk[7])
        self.fmemo = {}
        del self.ctx[mk[8]:]
        del self.warn[mk[9]:]
        for k, r, w in mk[10]:
            del k.reads[r:]
            del k.writes[w:]

    # ------------------------------------------------------------------ function execution
    def call_function(self, f, args, st):
        """-> (state or None, return value)"""
        if len(self.stack) > 200:
            raise Unsupported("recursion through " + f.dem)
        f.prepare()
        self.inlined.add(f.name)
        env = dict(enumerate(args))
        fr = Frame(f, env)
        ln = [f.line]
        self.stack.append((f, ln))
        fr.ln = ln
        try:
            exits, backs = self.region(fr, None, {0: [(st, -1)]})
            rets = fr.rets
        finally:
            self.stack.pop()
        if not rets:
            return None, UNDEF
        m = self.merge([(s, [v]) for s, v in rets])
        if m is None:
            return None, UNDEF
        s, (v,) = m
        for o in fr.allocas:
            s.mem.pop(o, None)
        return s, v

    def region(self, fr, header, pend):
        """execute the blocks of a region (whole function when header is None)"""
        f = fr.f
        blocks = sorted(f.lp[header]) if header is not None else range(len(f.blocks))
        inside = f.lp[header] if header is not None else None
        exits, backs = [], []
        skip = set()
        for b in blocks:
            if b in skip:
                continue
            if b in f.lp and b != header:
                inc = pend.pop(b, None)
                skip |= f.lp[b]
                if not inc:
                    continue
                for (t, s, pr) in self.loop(fr, b, inc):
                    if inside is not None and t == header:
                        backs.append((s, pr))
                    elif inside is not None and t not in inside:
                        exits.append((t, s, pr))
                    else:
                        pend.setdefault(t, []).append((s, pr))
                continue
            inc = pend.pop(b, None)
            if not inc:
                continue
            out = self.block(fr, b, inc)
            for t, s in out:
                if s.g is FALSE:
                    continue
                if inside is not None and t == header:
                    backs.append((s, b))
                elif inside is not None and t not in inside:
                    exits.append((t, s, b))
                else:
                    pend.setdefault(t, []).append((s, b))
        return exits, backs

    # ------------------------------------------------------------------ loops
    def loop(self, fr, h, inc):
        mk = self.mark()
        m = self.merge([(s, []) for s, _ in inc]) if not self.has_phi(fr, h) else None
        if m is None and not self.has_phi(fr, h):
            return []
        if m is not None:
            st = m[0]
            inc = [(st, inc[0][1])]
        start = [(s.fork(), p) for s, p in inc]
        exits = []
        cur = inc
        n = 0
        soft = 0
        fr.hdr = getattr(fr, "hdr", {})
        cut = self.hooks.get("cut")
        c0 = cut(None) if cut else None
        while True:
            fr.hdr[h] = None
            g0 = None
            if len(cur) == 1:
                g0 = cur[0][0].g
            ex, backs = self.region(fr, h, {h: cur})
            backs = [(s, p) for s, p in backs if s.g is not FALSE]
            exits += ex
            n += 1
            if not backs:
                return exits
            if fr.hdr[h] == "sym":  # header exit test not constant
                soft += 1
            elif len(backs) == 1 and backs[0][0].g is not g0 and ex:
                soft += 1
            lim = self.unroll
            hint = self.hooks.get("unroll")
            if hint:
                v = hint(fr.f, h)
                if v is not None:
                    lim = v
            ticked = cut and cut(c0)  # a loop followed step by step up to a given number of steps
            if not ticked and (soft > lim or n > self.max_const or (soft and self.hard_symbolic(fr, h)) or (self.hooks.get("havoc") and n > 1)):
                self.rollback(mk)
                return self.symloop(fr, h, start)
            cur = [self.merge([(s, []) for s, _ in backs])[0:1] + (backs[0][1],)] if not self.has_phi(fr, h) else backs

    def hard_symbolic(self, fr, h):
        """the header test is symbolic already at the first iteration: summarise at once"""
        return fr.hdr[h] == "sym" and not self.hooks.get("unroll_sym")

    def has_phi(self, fr, b):
        return fr.f.blocks[b] and fr.f.blocks[b][0][0] == "phi"

    def symloop(self, fr, h, start):
        if self.has_phi(fr, h):
            raise Unsupported("phi at the header of a symbolic loop in " + fr.f.dem)
        st0, pred = start[0]
        L = Loop()
        L.id = len(self.loops)
        L.where = self.where()
        L.sym = self.new("n", "i")
        L.lo, L.hi, L.step = 0, None, 1
        L.prev = None
        L.closed = {}
        L.chars = []
        L.rec = {}
        L.cond = None
        mod = {}  # (obj, off) -> (size, init value, sigma)
        ind = {}  # (obj, off) -> step
        noind = set()
        mk = self.mark()
        for rnd in range(12):
            s = st0.fork()
            self.ctx.append(L)
            L.chars = []
            for (o, off), (sz, init, sg) in mod.items():
                v = sg
                if (o, off) in ind:
                    v = addstep(init, ind[(o, off)], L.sym)
                self.store_at(self.wmem(s, o), off, v, sz)
            fr.hdr[h] = None
            fr.hcond = None
            g0 = s.g
            ex, backs = self.region(fr, h, {h: [(s, pred)]})
            back = self.merge([(b, []) for b, _ in backs]) if backs else None
            changed = False
            if back is not None:
                b = back[0]
                for o in list(st0.mem):
                    m0, m1 = st0.mem[o], b.mem.get(o)
                    if m1 is None or m0 is m1:
                        continue
                    for off in set(m0.cells) | set(m1.cells):
                        c1 = m1.cells.get(off)
                        if c1 is None:
                            continue
                        sz = c1[0]
                        c0 = m0.cells.get(off)
                        key = (o, off)
                        if key in mod:
                            sz, init, sg = mod[key]
                            curv = addstep(init, ind[key], L.sym) if key in ind else sg
                            nxt = c1[1]
                            if key in ind:
                                want = addstep(init, ind[key], X.iadd(L.sym, 1))
                                if not same(want, nxt):
                                    del ind[key]
                                    L.rec.pop(key, None)
                                    mod[key] = (sz, init, sg)
                                    noind.add(key)
                                    changed = True
                            else:
                                stp = stepof(nxt, sg)
                                if stp is not None and key not in noind and not self.hooks.get("havoc"):
                                    ind[key] = stp
                                    changed = True
                                L.rec[key] = (init, nxt, sg)
                            continue
                        init = c0[1] if c0 is not None and c0[0] == sz else self.load_at(m0, off, guess_ty(c1, None, sz), sz)
                        if same(init, c1[1]):
                            continue
                        if init is UNDEF and off not in m0.cells:
                            pass  # first written inside the loop before being read: a temporary
                        mod[key] = (sz, init, self.sigma(c1[1], o, off))
                        changed = True
            if not changed:
                break
            self.rollback(mk)
        else:
            raise Unsupported("no loop fixpoint in " + fr.f.dem)
        hc = fr.hcond
        # domain of the counter from the header test
        dom = None
        if hc is not None:
            dom = None if self.hooks.get("havoc") else self.counter_bound(hc, L.sym)
        L.hi = dom
        L.cond = hc
        carried = {}
        for b, hs in self.hist.items():
            n0 = mk[1].get(b, 0)
            if len(hs) > n0:
                carried[b] = list(hs[n0:])
        if carried or dom is not None:
            # final pass with the domain known and loop-carried view reads visible
            while True:
                self.rollback(mk)
                L.prev = carried
                L.chars = []
                L.start = mk[1]
                s = st0.fork()
                self.ctx.append(L)
                self.fact(L.sym)
                if dom is not None:
                    self.fact(X.isub(X.isub(dom, L.sym), 1))
                for (o, off), (sz, init, sg) in mod.items():
                    v = addstep(init, ind[(o, off)], L.sym) if (o, off) in ind else sg
                    self.store_at(self.wmem(s, o), off, v, sz)
                nofacts = mk[7]
                # the header itself is evaluated without the bound (K may equal the trip count there)
                fr.hdr[h] = None
                fr.loopbound = (h, L, list(nofacts))
                ex, backs = self.region(fr, h, {h: [(s, pred)]})
                back = self.merge([(b, []) for b, _ in backs]) if backs else None
                if back is not None:
                    for key in L.rec:
                        o, off = key
                        m1 = back[0].mem.get(o)
                        if m1 and off in m1.cells:
                            L.rec[key] = (mod[key][1], m1.cells[off][1], mod[key][2])
                if not self.counters(L, {b: hs[mk[1].get(b, 0):] for b, hs in self.hist.items() if len(hs) > mk[1].get(b, 0)}, st0.g):
                    break
            self.facts = list(nofacts)
            self.fmemo = {}
        if L in self.ctx:
            self.ctx.remove(L)
        self.loops.append(L)
        L.cells = mod
        L.exits = [(p2 == h, s2.g) for t, s2, p2 in ex]
        # after the loop
        T = None
        if dom is not None:
            T = self.simp(X.ite(self.simpb(X.icmp("sgt", dom, 0), st0.g), dom, 0))
        hexits = [(t, s2, p2) for t, s2, p2 in ex if p2 == h]
        oexits = [(t, s2, p2) for t, s2, p2 in ex if p2 != h]
        sub = {}
        if T is not None and not oexits:
            sub[atom_of(L.sym).id] = T
        else:
            sub[atom_of(L.sym).id] = self.new("nx", "i")
        for key, (init, nxt, sg) in L.rec.items():
            if key in ind or nxt is None or self.hooks.get("havoc"):
                continue
            if isinstance(sg, (E, int)) and not isconst(sg):
                at = atom_of(sg)
                sub[at.id] = self.mu(L, key, init, nxt, sg, T, oexits)
        D = FALSE
        for t, s2, p2 in ex:
            D = bor(D, s2.g)
        out = []
        for t, s2, p2 in ex:
            g = constrain(s2.g, D) if D is not FALSE else s2.g
            s3 = self.subst_state(s2, sub, st0)
            g = X.bsubst(g, sub, {})
            s3.g = band(st0.g, g)
            for (o, off), (init, nxt, sg) in L.rec.items():
                # a string built character by character
                if isinstance(nxt, Str) and isinstance(sg, Str) and o in s3.mem and off in s3.mem[o].cells and s3.mem[o].cells[off][1] == sg:
                    r = HOOK["built"](self, L, init, nxt, sg) if not oexits and L.hi is not None else None
                    if r is not None:
                        self.wmem(s3, o).cells[off] = (s3.mem[o].cells[off][0], Str(r))
            if L.chars:
                if oexits:
                    raise Unsupported("loop over the characters of a string at %s" % (L.where,))
                self.charmaps(L, s3, st0.g)
            out.append((t, s3, p2))
        return out

    def counters(self, L, new, g):
        """integer views without index that advance by a constant: closed form of the value before iteration k"""
        cand = {}
        for b, es in new.items():
            if b in L.closed or any(e.idx or e.ctx[-1:] != (L,) or not isinstance(e.val, (E, int)) or isinstance(e.val, E) and e.val.k != "i" for e in es):
                continue
            at = atom_of(X.iatom("ld", "carried:%s:%s" % (b.name, X.show(L.sym))))
            v = X.iatom("ld", "carried:%s:%s" % (b.name, X.show(L.sym)))
            for e in es:
                v = vite(constrain(e.g, g), e.val, v)
            save, self.ctx = self.ctx, [c for c in self.ctx if c is not L]
            x0 = self.vload(b, (), g, "i32", self.histlen(b, es))
            self.ctx = save
            if isinstance(x0, int) or isinstance(x0, E) and x0.k == "i":
                cand[b] = (at, v, x0)
        if not cand:
            return False
        first = {at.id: x0 for at, v, x0 in cand.values()}
        first[atom_of(L.sym).id] = 0
        hyp = {}
        for b, (at, v, x0) in cand.items():
            step = X.isub(self.simp(X.subst(v, first)), x0)
            if isinstance(step, int):
                hyp[b] = step
        facts = list(self.facts)
        self.fact(X.isub(L.sym, 1))
        while hyp:
            m = {cand[b][0].id: X.iadd(cand[b][2], X.imul(st, L.sym)) for b, st in hyp.items()}
            bad = []
            for b, st in hyp.items():
                at, v, x0 = cand[b]
                d = X.isub(X.subst(v, m), X.iadd(m[at.id], st))
                if self.simp(X.subst(d, first)) != 0 or self.simp(d) != 0:
                    bad.append(b)
            if not bad:
                break
            for b in bad:
                del hyp[b]
        self.facts = facts
        self.fmemo = {}
        for b, st in hyp.items():
            L.closed[b] = X.iadd(cand[b][2], X.imul(st, L.sym))
        return bool(hyp)

    def histlen(self, b, es):
        return len(self.hist[b]) - len(es)

    def mu(self, L, key, init, nxt, sg, T, brk):
        """canonical symbol for the final value of a recurrence"""
        bs = X.sym("mu_s", "f" if sg.k == "f" else "i")
        bk = X.sym("mu_k", "i")
        m = {atom_of(sg).id: bs, atom_of(L.sym).id: bk}
        nn = X.subst(nxt, m) if isinstance(nxt, (E, int)) else repr(nxt)
        if isinstance(init, (E, int)) and isinstance(nxt, (E, int)) and T is not None and not brk:
            ats = {a.id for a in X.atoms(nxt)}
            others = [k for k, r in L.rec.items() if k != key and isinstance(r[2], E) and atom_of(r[2]).id in ats]
            if not others:
                if sg.k == "f":
                    return X.mk("mu", (init, nn, T), "f")
                return X.iatom("mu", init, nn, T)
        k = sg.k
        return self.new("mu%d" % L.id, "f" if k == "f" else "i")

    def sigma(self, v, o, off):
        nm = "s_%s_%s" % (o.name if isinstance(o.name, str) else "o", off)
        if isinstance(v, B):
            return X.bvar(("P", "sigma", self.new(nm)))
        if isinstance(v, (Ptr,)):
            i = self.new(nm, "i")
            return Ptr(v.o, i)
        if isinstance(v, PIte):
            return Ptr(self.symobj("%s#%d" % (nm, self.bump())), 0)
        if isinstance(v, int) or (isinstance(v, E) and v.k == "i"):
            return self.new(nm, "i")
        if isinstance(v, E):
            return self.new(nm)
        if isinstance(v, Str):
            return Str(("sigma", nm, self.bump()))
        if v is UNDEF:
            return UNDEF
        return Opaque(("sigma", nm, self.bump()))

    def bump(self):
        self.fresh += 1
        return self.fresh

    def counter_bound(self, cond, k):
        """cond(k) <=> k < bound ?  -> bound"""
        at = atom_of(k)
        b = cond
        neg = False
        if b.lo is None:
            return None
        conj = []
        while b.id > 1:
            if b.lo is FALSE:
                conj.append((b.v, True))
                b = b.hi
            elif b.hi is FALSE:
                conj.append((b.v, False))
                b = b.lo
            else:
                n = self.ne_bound(cond, at)  # k != n, from 0 by 1
                return n if n is not None and self.simpb(X.icmp("slt", n, 0)) is FALSE else None
        if b is FALSE:
            return None
        if len(conj) == 2 and all(not q for _, q in conj) and X.VARS[conj[0][0]][1] is X.VARS[conj[1][0]][1]:
            # n - k > 0 appears as !IL && !IE
            d = X.VARS[conj[0][0]]
            c = dict(d[1].a).get((at,))
            rest = X.isub(d[1], X.imul(c, X._ip({(at,): 1}))) if c == -1 else None
            if rest is not None and not any(x.id == at.id for x in X.atoms(rest)):
                return rest
        for v, pol in conj:
            d = X.VARS[v]
            if d[0] == "IL":
                c = dict(d[1].a).get((at,))
                if c is None:
                    continue
                rest = X.isub(d[1], X.imul(c, X._ip({(at,): 1})))
                if any(x.id == at.id for x in X.atoms(rest)):
                    return None
                if pol and c == 1:  # k + rest < 0
                    return X.ineg(rest)
                if not pol and c == -1:  # -k + rest >= 0
                    return X.iadd(rest, 1)
                if pol and c > 1:
                    return X.iadd(X.idiv(X.isub(X.ineg(rest), 1), c), 1)
        ok = {X.VARS[v][0]: pol for v, pol in conj}
        for v, pol in conj:
            d = X.VARS[v]
            if d[0] in ("IE", "IL"):
                c = dict(d[1].a).get((at,))
                if c in (1, -1):
                    rest = X.isub(d[1], X.imul(c, X._ip({(at,): 1})))
                    n = X.imul(X.ineg(rest), c)
                    # canonical "n - k > 0" appears as !IL && !IE
                    if len(conj) == 2 and all(not q for _, q in conj) and c == -1:
                        return n
        # pure disequality  k != n
        return self.ne_bound(cond, at)

    def ne_bound(self, cond, at):
        # (IL(d)) or (not IL and not IE): d != 0
        d = X.VARS[cond.v]
        if d[0] != "IL":
            return None
        if X.bnot(X.ieq0(d[1])) is cond:
            c = dict(d[1].a).get((at,))
            if c in (1, -1):
                rest = X.isub(d[1], X.imul(c, X._ip({(at,): 1})))
                return X.imul(X.ineg(rest), c)
        return None

    def subst_state(self, s, sub, ref):
        r = State()
        r.g = s.g
        memo = {}
        for o, m in s.mem.items():
            if ref.mem.get(o) is m:
                r.mem[o] = m
                continue
            n = Mem(r.tok)
            n.dflt = m.dflt
            for off, (sz, v) in m.cells.items():
                n.cells[off] = (sz, vsubst(v, sub, memo))
            r.mem[o] = n
        return r

    # ------------------------------------------------------------------ blocks
    def block(self, fr, b, inc):
        f = fr.f
        ins = f.blocks[b]
        env = fr.env
        mod = f.mod
        phis = []
        k = 0
        while k < len(ins) and ins[k][0] == "phi":
            phis.append(ins[k])
            k += 1
        lst = []
        for s, pr in inc:
            vals = []
            for ph in phis:
                src = [v for p, v in ph[4] if p == pr]
                vals.append(self.op(env, src[0], mod) if src else UNDEF)
            lst.append((s, vals))
        m = self.merge(lst)
        if m is None:
            return []
        st, vals = m
        for ph, v in zip(phis, vals):
            env[ph[1]] = v
        for i in range(k, len(ins)):
            I = ins[i]
            o = I[0]
            self.steps += 1
            if I[3]:
                fr.ln[0] = I[3]
            if o == "br":
                if I[4] is None:
                    return [(I[5], st)]
                c = self.tobool(self.op(env, I[4], mod))
                return self.branch(fr, b, st, c, I[5], I[6])
            if o == "switch":
                return self.switch(fr, b, st, I)
            if o == "ret":
                v = self.op(env, I[4], mod) if len(I) > 4 else UNDEF
                fr.rets.append((st, v))
                return []
            if o == "unreachable":
                return []
            if o == "call" or o == "invoke":
                r = self.call(fr, st, I)
                if r is None:
                    return []
                st, v = r
                env[I[1]] = v
                if o == "invoke":
                    u = self.hooks.get("unwind")
                    u = u(I) if u else None
                    if u is not None:
                        s2 = st.fork()
                        s2.g = band(st.g, u)
                        st.g = band(st.g, bnot(u))
                        return [(I[7], st), (I[8], s2)]
                    return [(I[7], st)]
                continue
            env[I[1]] = self.inst(fr, st, I, env, mod)
        return []

    def branch(self, fr, b, st, c, t, e):
        c = constrain(c, st.g) if st.g is not TRUE else c
        lb = getattr(fr, "loopbound", None)
        if lb and lb[0] == b and c.id > 1:
            # the header of a summarised loop is evaluated without the bound on its counter
            fs, fm = self.facts, self.fmemo
            self.facts, self.fmemo = lb[2], {}
            c0 = self.simpb(c)
            self.facts, self.fmemo = fs, fm
            ti, ei = t in fr.f.lp[b], e in fr.f.lp[b]
            if ti != ei and c0.id > 1 and self.simpb(c) is (TRUE if ti else FALSE):
                fr.hdr[b] = "sym"
                fr.hcond = c0 if ti else bnot(c0)
                s2 = st.fork()
                s2.g = band(st.g, bnot(c0) if ti else c0)
                return [(t, st), (e, s2)] if ti else [(t, s2), (e, st)]
        if c.id > 1 and (self.facts):
            c = self.simpb(c)
        f = fr.f
        if b in f.lp:  # loop header
            inside = f.lp[b]
            ti, ei = t in inside, e in inside
            if ti != ei:
                if c.id > 1:
                    fr.hdr[b] = "sym"
                fr.hcond = c if ti else bnot(c)
        if c is TRUE:
            return [(t, st)]
        if c is FALSE:
            return [(e, st)]
        s2 = st.fork()
        s2.g = band(st.g, bnot(c))
        st.g = band(st.g, c)
        return [(t, st), (e, s2)]

    def switch(self, fr, b, st, I):
        v = self.op(fr.env, I[4], fr.f.mod)
        if isinstance(v, int):
            for k, t in I[6]:
                if k == v:
                    return [(t, st)]
            return [(I[5], st)]
        out = []
        rest = TRUE
        for k, t in I[6]:
            c = self.simpb(constrain(X.ieq0(X.isub(v, k)), st.g), st.g)
            s = st.fork()
            s.g = band(st.g, band(rest, c))
            rest = band(rest, bnot(c))
            if s.g is not FALSE:
                out.append((t, s))
        st.g = band(st.g, rest)
        if st.g is not FALSE:
            out.append((I[5], st))
        # the same target may be reached several times
        return out

    def tobool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, int):
            return TRUE if v & 1 else FALSE
        if v is UNDEF:
            return X.bvar(("P", "undef", self.new("u")))
        if isinstance(v, E) and v.k == "i":
            return bnot(X.ieq0(v))
        raise Unsupported("branch on %r at %s" % (v, self.where()))

    def op(self, env, o, mod):
        if isinstance(o, int):
            return env[o]
        return self.const(o, mod)

    # ------------------------------------------------------------------ instructions
    def inst(self, fr, st, I, env, mod):
        o = I[0]
        ty = I[2]
        if o == "load":
            return self.load(st, self.op(env, I[4], mod), ty, I[5])
        if o == "store":
            self.store(st, self.op(env, I[5], mod), self.op(env, I[4], mod), I[7], I[6])
            return None
        if o == "alloca":
            n = self.op(env, I[6], mod)
            ob = Obj("stack", I[4] or "tmp", I[5] * n if isconst(n) else None)
            fr.allocas.append(ob)
            st.mem[ob] = Mem(st.tok)
            return Ptr(ob, 0)
        if o == "getelementptr":
            p = self.op(env, I[4], mod)
            d = I[5]
            for v, s in I[6]:
                i = self.op(env, v, mod)
                i = self.asint(i)
                d = X.iadd(d, X.imul(i, s))
            return self.padd(p, d)
        if o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.f(env, I[4], mod), self.f(env, I[5], mod)
            if o == "fadd":
                return X.fadd(a, b)
            if o == "fsub":
                return X.fsub(a, b)
            if o == "fmul":
                return X.fmul(a, b)
            if o == "fdiv":
                return X.fdiv(a, b)
            return X.fn("fmod", a, b)
        if o == "fneg":
            return X.fneg(self.f(env, I[4], mod))
        if o == "fcmp":
            return X.fcmp(I[4], self.f(env, I[5], mod), self.f(env, I[6], mod))
        if o == "icmp":
            return self.icmp(I[4], self.op(env, I[5], mod), self.op(env, I[6], mod), I[7])
        if o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.arith(o, ty, self.op(env, I[4], mod), self.op(env, I[5], mod))
        if o == "select":
            c = self.tobool(self.op(env, I[4], mod))
            return vite(constrain(c, st.g), self.op(env, I[5], mod), self.op(env, I[6], mod))
        if o in ("sext", "zext", "trunc"):
            return self.icast(o, self.op(env, I[4], mod), I[5], ty)
        if o in ("sitofp", "uitofp"):
            v = self.op(env, I[4], mod)
            if isinstance(v, B):
                return X.ite(v, X.ONE, X.ZERO)
            return X.i2f(self.asint(v))
        if o in ("fptosi", "fptoui"):
            v = self.f(env, I[4], mod)
            return self.f2i(v)
        if o in ("fpext", "fptrunc", "freeze"):
            return self.op(env, I[4], mod)
        if o in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            return self.coerce(self.op(env, I[4], mod), ty) if o != "ptrtoint" else self.op(env, I[4], mod)
        if o == "extractvalue":
            v = self.op(env, I[4], mod)
            for i in I[5]:
                if isinstance(v, Agg):
                    v = v[i]
                elif v is UNDEF:
                    return UNDEF
                else:
                    return Opaque(("ev", v, tuple(I[5])))
            return v
        if o == "insertvalue":
            return self.insert(self.op(env, I[4], mod), self.op(env, I[5], mod), I[6], ty)
        if o == "landingpad":
            return self.hooks["landing"]() if "landing" in self.hooks else Agg((UNDEF, UNDEF))
        if o == "va_arg":
            return Opaque(("va", self.bump()))
        if o in ("atomicrmw", "cmpxchg", "fence"):
            return self.atomic(st, I, env, mod)
        raise Unsupported("instruction %s at %s" % (o, self.where()))

    def atomic(self, st, I, env, mod):
        self.event(st, "atomic", ())
        return self.new("atomic", "i")

    def f2i(self, v):
        if v.op == "c":
            q = v.a[0]
            n = abs(q.numerator) // q.denominator
            return n if q >= 0 else -n
        if v.op == "i2f":
            return v.a[0]
        if v.op == "ite":
            return X.ite(v.a[0], self.f2i(v.a[1]), self.f2i(v.a[2]))
        return X.iatom("f2i", v)

    def insert(self, agg, v, idx, ty):
        if agg is UNDEF or not isinstance(agg, Agg):
            agg = Agg(UNDEF for _ in layout(ty))
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insert(l[idx[0]], v, idx[1:], layout(ty)[idx[0]][1])
        return Agg(l)

    def f(self, env, o, mod):
        v = self.op(env, o, mod)
        if isinstance(v, E) and v.k == "f":
            return v
        if v is UNDEF:
            return X.sym("undef")
        v = self.coerce(v, "f64")
        if isinstance(v, E) and v.k == "f":
            return v
        raise Unsupported("floating operand %r at %s" % (v, self.where()))

    def asint(self, v):
        if isinstance(v, (int, E)):
            return v
        if isinstance(v, B):
            return X.ite(v, 1, 0)
        if v is UNDEF:
            return X.sym("undef_i", "i")
        if isinstance(v, Opaque):
            return X.iatom("opq", repr(v.t))
        raise Unsupported("integer operand %r at %s" % (v, self.where()))

    def padd(self, p, d):
        if isconst(d) and d == 0:
            return p
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if isinstance(p, Ptr):
            return Ptr(p.o, X.iadd(p.off, d))
        if p is UNDEF:
            return Ptr(self.symobj("undefptr"), 0)
        raise Unsupported("pointer arithmetic on %r at %s" % (p, self.where()))

    def icmp(self, pred, a, b, ty):
        if ty == "ptr" or isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(pred, a, b)
        if isinstance(a, B) or isinstance(b, B):
            if ty == "i1":
                a, b = self.tobool(a), self.tobool(b)
                if pred == "eq":
                    return bnot(X.bxor(a, b))
                if pred == "ne":
                    return X.bxor(a, b)
                a, b = X.ite(a, 1, 0), X.ite(b, 1, 0)
                return X.icmp(pred, a, b)
        if isinstance(a, Cat) and isinstance(b, Cat) and [q[:2] for q in a.parts] == [q[:2] for q in b.parts] and pred in ("eq", "ne"):
            r = TRUE
            for p, q in zip(a.parts, b.parts):
                r = band(r, self.icmp("eq", p[2], q[2], "i32"))
            return r if pred == "eq" else bnot(r)
        a, b = self.asint(a), self.asint(b)
        if isinstance(a, int) and isinstance(b, int) and pred[0] == "u":
            w = int(ty[1:]) if ITY.match(ty) else 64
            return X.icmp("s" + pred[1:], uns(a, w), uns(b, w))
        if pred[0] == "u" and ITY.match(ty) and self.hooks.get("exact"):
            w = int(ty[1:])
            a, b = self.unsig(a, w), self.unsig(b, w)
            return self.lifted("s" + pred[1:], a, b)
        elif self.hooks.get("exact"):
            return self.lifted(pred, a, b)
        elif pred[0] == "u" and ITY.match(ty):
            # a symbolic unsigned operand is taken as non-negative, a constant as its unsigned value
            w = int(ty[1:])
            if isinstance(a, int):
                a = uns(a, w)
            if isinstance(b, int):
                b = uns(b, w)
        if isinstance(a, int) or isinstance(b, int):
            it = X._only_ite(a) if not isinstance(a, int) else X._only_ite(b)
            if it is not None and isconst(it.a[1]) and isconst(it.a[2]):
                if isinstance(b, int):
                    return bite(it.a[0], X.icmp(pred, it.a[1], b), X.icmp(pred, it.a[2], b))
                return bite(it.a[0], X.icmp(pred, a, it.a[1]), X.icmp(pred, a, it.a[2]))
        return X.icmp(pred, a, b)

    # exact machine integers (hook "exact"): values are kept in two's complement signed form
    def unsig(self, v, w):
        if isinstance(v, int):
            return uns(v, w)
        if self.nonneg(v):
            return v
        it = X._only_ite(v)
        if it is not None:
            return X.ite(it.a[0], self.unsig(it.a[1], w), self.unsig(it.a[2], w))
        return X.ite(X.icmp("slt", v, 0), X.iadd(v, 1 << w), v)

    def wrapped(self, v, w):
        if isinstance(v, int):
            return wrap(v, w)
        h = 1 << (w - 1)
        it = X._only_ite(v)
        if it is not None:
            return X.ite(it.a[0], self.wrapped(it.a[1], w), self.wrapped(it.a[2], w))
        a, b = X.isub(h - 1, v), X.iadd(v, h)
        if self.nonneg(a) and self.nonneg(b):
            return v
        far = X.iatom("wrap%d" % w, v)
        up = X.ite(X.icmp("slt", X.isub(v, 3 * h), 0), X.isub(v, 2 * h), far)
        dn = X.ite(X.icmp("sge", X.iadd(v, 3 * h), 0), X.iadd(v, 2 * h), far)
        return X.ite(X.icmp("slt", a, 0), up, X.ite(X.icmp("slt", b, 0), dn, v))

    def lifted(self, pred, a, b):
        """comparison with conditional operands distributed"""
        d = X.isub(a, b)
        if isinstance(d, E):
            for mono, k in d.a:
                for at in mono:
                    if at.op == "ite" and len(mono) == 1:
                        base = X.isub(d, X._ip({mono: k}))
                        return bite(at.a[0], self.lifted(pred, X.iadd(base, X.imul(at.a[1], k)), 0), self.lifted(pred, X.iadd(base, X.imul(at.a[2], k)), 0))
        return X.icmp(pred, d, 0)

    def pcmp(self, pred, a, b):
        if isinstance(a, PIte):
            return bite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PIte):
            return bite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o:
                return X.icmp(pred.replace("u", "s") if pred[0] == "u" else pred, a.off, b.off)
            for p, q in ((a, b), (b, a)):
                if p.o is NULLO and q.o.kind == "sym" and q.o.x == "maybe_null":
                    r = X.bvar(("P", "isnull", X.sym("null?" + str(q.o.name))))
                    return r if pred == "eq" else bnot(r)
            if pred == "eq":
                return FALSE
            if pred == "ne":
                return TRUE
        return X.bvar(("P", "pcmp " + pred, X.sym("pc%d" % self.bump())))

    def arith(self, o, ty, a, b):
        if ty == "i1" or (isinstance(a, B) and isinstance(b, B)):
            a, b = self.tobool(a), self.tobool(b)
            if o == "and" or o == "mul":
                return band(a, b)
            if o == "or":
                return bor(a, b)
            if o in ("xor", "add", "sub"):
                return X.bxor(a, b)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if o == "sub":
                return self.pdiff(a, b)
            if o == "add":
                return self.padd(a, self.asint(b)) if isinstance(a, (Ptr, PIte)) else self.padd(b, self.asint(a))
            return X.iatom("ptrop", o, self.bump())
        w = int(ty[1:]) if ITY.match(ty) else 64
        if isinstance(a, Cat) or isinstance(b, Cat):
            if o == "lshr" and isinstance(b, int):
                return self.part(a, w // 8, b // 8, w // 8 - b // 8)
            if o == "and" and isinstance(b, int) and b == (1 << 32) - 1:
                return self.part(a, w // 8, 0, 4)
            return Opaque((o, a, b))
        a, b = self.asint(a), self.asint(b)
        if isinstance(a, int) and isinstance(b, int):
            if o == "add":
                return wrap(a + b, w)
            if o == "sub":
                return wrap(a - b, w)
            if o == "mul":
                return wrap(a * b, w)
            if o == "sdiv":
                return wrap(X._cdiv(a, b), w) if b else 0
            if o == "srem":
                return wrap(a - b * X._cdiv(a, b), w) if b else 0
            if o == "udiv":
                return wrap(uns(a, w) // uns(b, w), w) if b else 0
            if o == "urem":
                return wrap(uns(a, w) % uns(b, w), w) if b else 0
            if o == "and":
                return wrap(a & b, w)
            if o == "or":
                return wrap(a | b, w)
            if o == "xor":
                return wrap(a ^ b, w)
            if o == "shl":
                return wrap(a << b, w)
            if o == "lshr":
                return wrap(uns(a, w) >> b, w)
            if o == "ashr":
                return wrap(a >> b, w)
        if o == "add":
            return X.iadd(a, b)
        if o == "sub":
            return X.isub(a, b)
        if o == "mul":
            p = X.imul(a, b)
            if not isconst(a) and not isconst(b) and not self.nonneg(p) and self.nonneg(a) and self.nonneg(b):
                self.fact(p)
            return p
        if o in ("sdiv", "udiv", "srem", "urem"):
            q, r = X.idiv(a, b), X.irem(a, b)
            if not isconst(q) and not isconst(r) and not self.nonneg(X.isub(X.isub(b, 1), r)) and self.nonneg(a) and self.nonneg(X.isub(b, 1)):
                self.fact(q)
                self.fact(r)
                self.fact(X.isub(X.isub(b, 1), r))
            return q if o in ("sdiv", "udiv") else r
        if o == "shl" and isinstance(b, int):
            return X.imul(a, 1 << b)
        if o in ("and", "or"):
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int):
                    if o == "and" and q == 0:
                        return 0
                    if o == "and" and q == 1:
                        it = X._only_ite(p)
                        if it is not None:
                            return p
                    if o == "or" and q == 0:
                        return p
            # boolean integers
            pa, pb = boolint(a), boolint(b)
            if pa is not None and pb is not None:
                r = band(pa, pb) if o == "and" else bor(pa, pb)
                return X.ite(r, 1, 0)
            if o == "and":
                it = X._only_ite(a)
                jt = X._only_ite(b)
                if it is not None and isinstance(b, int) and isconst(it.a[1]) and isconst(it.a[2]):
                    return X.ite(it.a[0], it.a[1] & b, it.a[2] & b)
        if o == "xor" and isinstance(b, int) and b == 1:
            pa = boolint(a)
            if pa is not None:
                return X.ite(pa, 0, 1)
        if o == "xor" and isinstance(b, int) and b == -1:
            return X.isub(-1, a)
        return X.iatom(o, a, b)

    def pdiff(self, a, b):
        if isinstance(a, PIte):
            return X.ite(a.c, self.pdiff(a.a, b), self.pdiff(a.b, b))
        if isinstance(b, PIte):
            return X.ite(b.c, self.pdiff(a, b.a), self.pdiff(a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            return X.isub(a.off, b.off)
        return X.iatom("pdiff", repr(a), repr(b))

    def icast(self, o, v, src, ty):
        if isinstance(v, B):
            if ty == "i1":
                return v
            return X.ite(v, 1 if o == "zext" else -1, 0)
        if v is UNDEF:
            return v
        if o == "trunc" and ty == "i1":
            return self.tobool(v) if not (isinstance(v, E)) else bnot(X.ieq0(v))
        if isinstance(v, int):
            w = int(ty[1:])
            if o == "zext":
                return uns(v, int(src[1:]))
            if o == "trunc":
                return wrap(v, w)
            return v
        if isinstance(v, Cat):
            if o == "trunc":
                return self.part(v, v.size, 0, int(ty[1:]) // 8)
            return Cat(v.parts, int(ty[1:]) // 8)
        if isinstance(v, (Ptr, PIte)):
            return v
        if o == "zext" and isinstance(v, E):
            it = X._only_ite(v)
            if it is not None and isconst(it.a[1]) and isconst(it.a[2]):
                w = int(src[1:])
                return X.ite(it.a[0], uns(it.a[1], w), uns(it.a[2], w))
        if self.hooks.get("exact") and isinstance(v, E):
            if o == "zext":
                return self.unsig(v, int(src[1:]))
            if o == "trunc":
                return self.wrapped(v, int(ty[1:]))
        if o == "zext" and src == "i8" and isinstance(v, E) and self.hooks.get("zext8"):
            return self.hooks["zext8"](self, v)
        return v

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, I):
        env, mod = fr.env, fr.f.mod
        cal = self.op(env, I[4], mod)
        args = [self.op(env, a, mod) for a in I[5]]
        return self.docall(fr, st, cal, args, I)

    def narrow(self, x, g):
        while isinstance(x, PIte):
            c = constrain(x.c, g)
            if c.id > 1:
                return x
            x = x.a if c is TRUE else x.b
        return x

    def docall(self, fr, st, cal, args, I):
        if isinstance(cal, PIte):
            c = constrain(cal.c, st.g)
            if c.id < 2:
                return self.docall(fr, st, cal.a if c is TRUE else cal.b, args, I)
            s2 = st.fork()
            s2.g = band(st.g, bnot(c))
            st.g = band(st.g, c)
            r1 = self.docall(fr, st, cal.a, [self.narrow(x, st.g) for x in args], I)
            r2 = self.docall(fr, s2, cal.b, [self.narrow(x, s2.g) for x in args], I)
            l = [(r[0], [r[1]]) for r in (r1, r2) if r is not None and r[0] is not None]
            m = self.merge(l)
            return None if m is None else (m[0], m[1][0])
        if not isinstance(cal, Ptr):
            raise Unsupported("call through %r at %s" % (cal, self.where()))
        if cal.o.kind != "fn":
            h = self.hooks.get("indirect")
            if h:
                return h(self, st, cal, args, I)
            return self.unknown(st, "indirect:%s" % (cal.o.name,), args, I)
        name = cal.o.name
        f = self.p.funcs[name]
        # byval aggregates are copied
        bv = I[6] if len(I) > 6 else ()
        tmp = []
        for i, sz in enumerate(bv):
            if sz and isinstance(args[i], (Ptr, PIte)):
                ob = Obj("stack", "byval", sz)
                st.mem[ob] = Mem(st.tok)
                self.memcpy(st, Ptr(ob, 0), args[i], sz)
                args[i] = Ptr(ob, 0)
                tmp.append(ob)
        m = self.model(f)
        if m is not None:
            r = m(self, st, args, I, f)
            if r is DEAD:
                return None
            if r is not NotImplemented:
                return st, r
        if f.decl:
            return self.unknown(st, f.dem, args, I, f)
        h = self.noinline
        if h is not None and h(f):
            return self.unknown(st, f.dem, args, I, f)
        s, v = self.call_function(f, args, st)
        if s is None:
            return None
        return s, v

    def model(self, f):
        if f.name in self.mcache:
            return self.mcache[f.name]
        m = None
        if "step" in self.hooks:
            m = self.hooks["step"](f)
        if m is None:
            m = self.models.get(f.name)
        if self.opaque and f.dem.split("(")[0] in self.opaque:
            from .models import opaque_model

            m = opaque_model(self.opaque[f.dem.split("(")[0]])
            self.opaque_hit.add(f.dem.split("(")[0])
        if m is None:
            for rx, fnc in self.regexes:
                if rx.match(f.dem):
                    m = fnc
                    break
        self.mcache[f.name] = m
        return m

    def unknown(self, st, name, args, I, f=None):
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        self.event(st, name, tuple(args))
        ty = I[2]
        if ty == "void":
            return st, UNDEF
        nm = "%s()#%d" % (shortname(name), self.bump())
        if ty == "i1":
            return st, X.bvar(("P", nm, X.sym(nm)))
        if ty[0] in "{[":
            return st, Agg(self.symval("%s.%d" % (nm, o), t) for o, t in layout(ty))
        return st, self.symval(nm, ty)

    # ------------------------------------------------------------------ strings
    def cstr(self, st, p):
        """term of a NUL-terminated C string"""
        if isinstance(p, PIte):
            return ("ite", p.c, self.cstr(st, p.a), self.cstr(st, p.b))
        if not isinstance(p, Ptr):
            return ("cstr", repr(p))
        o = p.o
        if o.kind == "cstr":
            if isconst(p.off) and p.off == 0:
                return o.x
            if isinstance(o.x, str) and isconst(p.off):
                return o.x[p.off:]
            return ("substr", o.x, p.off)
        if o.kind in ("glob", "stack", "heap"):
            m = self.getmem(st, o)
            if isconst(p.off):
                out = []
                off = p.off
                while len(out) < 100000:
                    c = self.load_at(m, off, "i8", 1)
                    if not isinstance(c, int):
                        if out == [] or True:
                            return ("cstr", o.name if isinstance(o.name, str) else repr(o.name), p.off)
                    if c == 0:
                        return "".join(out)
                    out.append(chr(c & 255))
                    off += 1
        return ("cstr", str(o.name), p.off)

    def getstr(self, st, p):
        """value of a std::string object"""
        if isinstance(p, PIte):
            a, b = self.getstr(st, p.a), self.getstr(st, p.b)
            return a if a == b else ("ite", p.c, a, b)
        v = self.load(st, p, "str", 32)
        if isinstance(v, Str):
            return v.t
        return ("strobj", repr(v))

    def setstr(self, st, p, t):
        self.store(st, p, Str(t), 32, "str")

    def mkcstr(self, t):
        o = Obj("cstr", "cstr:%s" % (showterm(t),), None, t)
        return Ptr(o, 0)


class Frame:
    __slots__ = ("f", "env", "rets", "allocas", "ln", "hdr", "hcond", "loopbound")

    def __init__(self, f, env):
        self.f = f
        self.env = env
        self.rets = []
        self.allocas = []
        self.hdr = {}
        self.hcond = None
        self.loopbound = None


DEAD = object()


def boolint(x):
    if isinstance(x, int):
        return {0: FALSE, 1: TRUE}.get(x)
    it = X._only_ite(x)
    if it is None:
        return None
    a, b = boolint(it.a[1]), boolint(it.a[2])
    if a is None or b is None:
        return None
    return bite(it.a[0], a, b)


def atom_of(i):
    """the atom of an integer or real symbol expression"""
    if i.k == "f":
        return i
    return i.a[0][0][0]


def addstep(init, step, n):
    if isinstance(init, Ptr):
        return Ptr(init.o, X.iadd(init.off, X.imul(step, n)))
    return X.iadd(init, X.imul(step, n))


def stepof(nxt, sg):
    """constant step of an induction cell"""
    if isinstance(sg, Ptr) and isinstance(nxt, Ptr) and sg.o is nxt.o:
        d = X.isub(nxt.off, sg.off)
        return d if isconst(d) else None
    if isinstance(sg, E) and sg.k == "i" and (isinstance(nxt, int) or (isinstance(nxt, E) and nxt.k == "i")):
        d = X.isub(nxt, sg)
        return d if isconst(d) else None
    return None


def vsubst(v, sub, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, (E, B)):
        return X.subst(v, sub, memo)
    if isinstance(v, Ptr):
        if isconst(v.off):
            return v
        return Ptr(v.o, X.subst(v.off, sub, memo))
    if isinstance(v, PIte):
        c = X.bsubst(v.c, sub, memo)
        return vite(c, vsubst(v.a, sub, memo), vsubst(v.b, sub, memo))
    if isinstance(v, Agg):
        return Agg(vsubst(x, sub, memo) for x in v)
    if isinstance(v, Str):
        return Str(tsubst(v.t, sub, memo))
    if isinstance(v, Cat):
        return Cat([(o, s, vsubst(x, sub, memo)) for o, s, x in v.parts], v.size)
    return v


def tsubst(t, sub, memo=None):
    if isinstance(t, tuple):
        return tuple(tsubst(x, sub, memo) for x in t)
    if isinstance(t, (E, B)):
        return X.subst(t, sub, memo if memo is not None else {})
    return t


def leaves(p, c=TRUE):
    if isinstance(p, PIte):
        yield from leaves(p.a, band(c, p.c))
        yield from leaves(p.b, band(c, bnot(p.c)))
    else:
        yield c, p


_lay = {}


def layout(ty):
    """[(offset, element type)] of a struct/array type name"""
    r = _lay.get(ty)
    if r is not None:
        return r
    if ty[0] == "{":
        body = ty[1:ty.rindex("}")]
        out, depth, cur = [], 0, ""
        for ch in body:
            if ch in "{[<":
                depth += 1
            elif ch in "}]>":
                depth -= 1
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        if cur:
            out.append(cur)
        r = []
        for x in out:
            o, t = x.split(":", 1)
            r.append((int(o), t))
    else:
        body = ty[1:ty.rindex("]" if ty[0] == "[" else ">")]
        n, t = body.split("x", 1)
        s = tysize(t)
        r = [(i * s, t) for i in range(int(n))]
    _lay[ty] = r
    return r


def tysize(ty):
    if ty in ("f64", "ptr"):
        return 8
    if ty == "f32":
        return 4
    if ty == "f80":
        return 16
    m = ITY.match(ty)
    if m:
        b = int(m.group(1))
        return max(1, b // 8)
    if ty[0] in "{[<":
        return int(ty[ty.rindex("#") + 1:])
    return 0


def zero_of(ty, undef):
    if undef is UNDEF:
        if ty[0] in "{[":
            return Agg(zero_of(t, UNDEF) for _, t in layout(ty))
        return UNDEF
    if ty in ("f64", "f32", "f80"):
        return X.ZERO
    if ty == "ptr":
        return NULL
    if ty == "i1":
        return FALSE
    if ITY.match(ty):
        return 0
    if ty[0] in "{[<":
        return Agg(zero_of(t, None) for _, t in layout(ty))
    if ty == "str":
        return Str("")
    return UNDEF


def guess_ty(a, b, sz):
    for c in (a, b):
        if c is not None:
            v = c[1]
            if isinstance(v, E):
                return "f64" if v.k == "f" else "i%d" % (8 * sz)
            if isinstance(v, (Ptr, PIte)):
                return "ptr"
            if isinstance(v, Str):
                return "str"
    return "i%d" % (8 * sz)


def shortname(d):
    d = re.sub(r"\(.*$", "", d) if not d.startswith("(") else d
    d = re.sub(r"<.*>", "<>", d)
    d = d.split(" ")[-1] if " " in d and "operator" not in d else d
    return d
