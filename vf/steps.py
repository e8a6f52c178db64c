"""Whole-program runs: chosen functions are uninterpreted steps acting on array contents.

A step reads the contents of the arrays and the values it is given and produces new contents named after
(step, output, inputs).  Two programs calling the same steps with the same inputs obtain the same contents,
however they are written; a run ends with a trace of the observable calls.
"""
import re

from . import canon, expr as X
from .eval import DEAD, Cat, NULLO, UNDEF, Base, Mem, Obj, Opaque, PIte, Ptr, State, Str, Unsupported, View, showterm, tysize
from .compare import Assume, Stats, Undecided, differ
from .expr import FALSE, TRUE, B, E, band, bnot, isconst
from .models import copy_entry


def params(dem):
    """parameter types of a demangled function signature"""
    s = dem
    if s.endswith(" const"):
        s = s[:-6]
    if not s.endswith(")"):
        return None
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0:
                break
    inner = s[i + 1:-1]
    out, cur, d = [], "", 0
    for ch in inner:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return s[:i], out


class Call:
    """an observable call"""

    def __init__(self, name, args, g, where, n):
        self.name, self.args, self.g, self.where, self.n = name, args, g, where, n


class Steps:
    def __init__(self, ev, step, ignore, pure=(), observe=(), version=("Grid",), birth=(), tick=None, unroll=2, ordered=()):
        self.ev = ev
        self.step = [(re.compile(r), n) for r, n in step]
        self.ignore = [re.compile(r) for r in ignore]
        self.pure = set(pure)
        self.observe = set(observe)
        self.ordered = tuple(ordered)  # calls whose relative order matters
        self.version = set(version)
        self.birth = set(birth)  # steps that only depend on what an object was created with
        self.keys = {}
        self.raw = {}
        self.at = {}
        self.count = 0
        self.first = 0
        self.unroll = unroll
        self.tick = tick
        self.jsyms = {}
        self.restart()
        ev.hooks["step"] = self.match
        # loops around the tick are followed for a given number of iterations
        ev.hooks["cut"] = lambda c0: self.phase if c0 is None else self.phase - c0 > 0

    def restart(self):
        self.first = self.count
        self.trace = []
        self.phase = 0
        self.slots = {}
        self.ghost = Obj("heap", "calls so far", 4096)

    def start(self):
        """initial state of a run: no call has been made"""
        st = State()
        st.mem[self.ghost] = Mem(st.tok)
        return st

    def counted(self, st, name):
        o = self.slots.setdefault(name, 8 * len(self.slots))
        return self.ev.load(st, Ptr(self.ghost, o), "i32", 4) if st.mem[self.ghost].cells.get(o) is not None else 0

    def counter(self, st, name):
        """number of calls of this kind so far: a value, by cases"""
        o = self.slots.setdefault(name, 8 * len(self.slots))
        p = Ptr(self.ghost, o)
        n = 0
        if st.mem[self.ghost].cells.get(o) is not None:
            n = self.ev.load(st, p, "i32", 4)
        self.ev.store(st, p, X.iadd(n, 1), 4, "i32")
        return n

    def cases(self, v, g):
        """(guard, integer) cases of a counter"""
        out = {}
        todo = [(canon.guard(g), canon.term(v) if isinstance(v, E) else v)]
        while todo:
            h, d = todo.pop()
            if h is FALSE:
                continue
            if isinstance(d, int):
                out[d] = X.bor(out.get(d, FALSE), h)
            elif d.v == canon.TOP:
                if not isinstance(d.val, int):
                    raise Unsupported("number of calls so far at " + self.ev.where())
                out[d.val] = X.bor(out.get(d.val, FALSE), h)
            else:
                b = X._bnode(d.v, FALSE, TRUE)
                todo.append((band(h, b), d.hi))
                todo.append((band(h, bnot(b)), d.lo))
        return sorted(out.items())

    # -------------------------------------------------------------- identification
    def ident(self, key, g=TRUE):
        """numbers of a call, by cases: calls whose inputs are equal have the same number"""
        g = canon.guard(g)
        out = []
        rest = g
        for where_made in (True, False):
            for n, (k, kg) in self.raw.items():
                if k[0] != key[0] or n >= self.first:
                    continue
                h = band(rest, kg) if where_made else rest
                if h is not FALSE and self.same(k, key, h):
                    out.append((h, n))
                    rest = band(rest, bnot(h))
                if rest is FALSE:
                    return out
        try:
            ck = canon.struct(key, rest)
        except canon.TooBig:
            ck = key
        r = self.keys.get(ck)
        if r is None:
            r = self.count
            self.count += 1
            self.keys[ck] = r
            self.raw[r] = (key, rest)
            self.at[r] = self.ev.where()
        else:
            self.raw[r] = (self.raw[r][0], X.bor(self.raw[r][1], rest))
        out.append((rest, r))
        return out

    def same(self, a, b, g):
        try:
            return canon.struct(a, g) == canon.struct(b, g)
        except canon.TooBig:
            return False

    def assume(self):
        pos = self.ev.positive
        a = Assume(lambda n: n in pos)
        for f in self.ev.facts:
            a.add(f, 0, (0, 1), True)
        return a

    def match(self, f):
        d = f.dem
        for rx, fn in LIB:
            if rx.match(d):
                return lambda ev, st, a, I, f: fn(self, ev, st, a, I, f)
        for rx in self.ignore:
            if rx.match(d):
                return ignored
        for rx, n in self.step:
            if rx.match(d):
                return lambda ev, st, a, I, f: self.call(st, a, I, f, n)
        if f.decl and re.match(r"([\w:]+ )?hclpp::", d):
            if "::~" in d:
                return ignored
            n = params(d)
            if n is None:
                return None
            n = n[0].split("::")[-1]
            return lambda ev, st, a, I, f: self.call(st, a, I, f, n)
        return None

    def note(self, st, name, args):
        if name in self.ordered:  # how many of the calls that must keep their order came before
            args = list(args) + [("before", "num", tuple(self.counted(st, o) for o in self.ordered))]
        n = self.counter(st, name)
        for k, g in self.cases(n, st.g):
            self.trace.append(Call(name, args, g, self.ev.where(), k))
        return n

    # -------------------------------------------------------------- values
    def val(self, st, v, depth=0):
        if isinstance(v, (int, str)):
            return v
        if isinstance(v, (E, B)):
            if isinstance(v, E) and v.k == "i":
                v = self.ev.simp(v)
                if isinstance(v, int):
                    return v
            return v
        if isinstance(v, Str):
            return ("str", self.strkey(v.t))
        if isinstance(v, (Ptr, PIte)):
            return self.obj(st, v, depth + 1)
        if isinstance(v, Cat):
            return ("cat",) + tuple((o, self.val(st, x, depth)) for o, _, x in v.parts)
        if v is UNDEF:
            return "undef"
        if isinstance(v, Opaque):
            return ("opaque", repr(v.t))
        if isinstance(v, tuple):
            return tuple(self.val(st, x, depth) for x in v)
        return ("?", repr(v))

    def strkey(self, t):
        if isinstance(t, tuple):
            return tuple(self.strkey(x) for x in t)
        return t if isinstance(t, (str, int, E, B)) else repr(t)

    def obj(self, st, p, depth=0):
        """identity of the object behind a pointer: its contents"""
        if isinstance(p, PIte):
            c = X.constrain(p.c, st.g)
            if c is TRUE:
                return self.obj(st, p.a, depth)
            if c is FALSE:
                return self.obj(st, p.b, depth)
            a, b = self.obj(st, p.a, depth), self.obj(st, p.b, depth)
            return a if a == b else ("ite", c, a, b)
        o = p.o
        if o is NULLO:
            return "null"
        if o.kind == "view":
            v = self.ev.view_of(p)
            return ("view", v.rank) + tuple(self.val(st, e) for e in v.ext)
        if o.kind in ("glob", "fn"):
            return (o.kind, re.sub(r"@\d+$", "", str(o.name)), self.val(st, p.off))
        if o.kind == "sym":
            return ("sym", o.name, self.val(st, p.off))
        if depth > 8:
            return "..."
        return self.bytes(st, p, None, depth)

    def bytes(self, st, p, size, depth=0):
        ev = self.ev
        m = ev.getmem(st, p.o)
        lo = p.off
        if not isconst(lo):
            return ("at", p.o.name, self.val(st, lo))
        if size is None:
            size = (p.o.size - lo) if isconst(p.o.size or UNDEF) and p.o.size else None
        hi = lo + size if size is not None else 1 << 40
        out = []
        for off in sorted(m.cells):
            sz, v = m.cells[off]
            if off >= lo and off + sz <= hi and v is not UNDEF:
                if isinstance(v, B):
                    v = X.ite(v, 1, 0)
                out.append((off - lo, self.val(st, v, depth)))
        have = {o for o, _ in out}
        for d in m.dflt:
            if d[2] == "sym" and d[1] > lo and d[0] < hi:
                out.append(("dflt", max(d[0], lo) - lo, d[3][0], d[3][1] + max(d[0], lo)))
        del have
        return tuple(out)

    def gridkey(self, st, p, birth=False):
        p1 = p
        m = self.ev.getmem(st, p1.o)
        c = m.cells.get(p1.off - (128 if birth else 64))
        return c[1].t if c is not None else ("grid", p1.o.name, p1.off)

    # -------------------------------------------------------------- arrays
    def J(self, v):
        key = tuple(e if isconst(e) else e.id for e in v.ext)
        r = self.jsyms.get(key)
        if r is None:
            r = []
            for d, e in enumerate(v.ext):
                s = X.sym("J%d.%d" % (len(self.jsyms), d), "i")
                self.ev.fact(s)
                self.ev.fact(X.isub(X.isub(e, s), 1))
                r.append(s)
            self.jsyms[key] = r = tuple(r)
        return r

    def leaves(self, p, g):
        if isinstance(p, PIte):
            for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
                if band(g, c) is not FALSE:
                    yield from self.leaves(q, band(g, c))
        else:
            yield g, p

    def handle(self, st, a):
        """view handle stored in the first word of a View object"""
        return self.ev.load(st, a, "ptr", 8)

    def content(self, st, h, rank):
        r = None
        for g, p in self.leaves(h, st.g):
            if p.o is NULLO:
                x = ("none",)
            else:
                v = self.ev.view_of(p, rank)
                x = self.ev.vload(v.base, v.map(self.J(v)), g)
                x = (tuple(self.val(st, e) for e in v.ext), x)
            if r is None:
                r = x
            elif isinstance(r[-1], E) and isinstance(x[-1], E) and r[0] == x[0]:
                r = (r[0], X.ite(X.constrain(g, st.g), x[1], r[1]))
            else:
                raise Unsupported("array argument of unknown identity at " + self.ev.where())
        return r

    def assign(self, st, h, rank, name):
        for g, p in self.leaves(h, st.g):
            if p.o is NULLO:
                continue
            v = self.ev.view_of(p, rank)
            b = Base(name, rank, v.ext, ("sym", name), name)
            src = View(b, tuple(("d", r, 0) for r in range(rank)), rank, v.ext)
            save = st.g
            st.g = g
            copy_entry(self.ev, st, v, src=src)
            st.g = save

    # -------------------------------------------------------------- calls
    def call(self, st, a, I, f, name):
        ev = self.ev
        base, types = params(f.dem)
        args = list(a)
        sret = None
        fa = f.args
        if fa and fa[0][2] == "sret":
            sret = args.pop(0)
            fa = fa[1:]
        this = None
        split = [2 if re.match(r"std::(array<int, 3ul>|basic_string_view<.*>)$", t) else 1 for t in types]
        if len(args) == sum(split) + 1:
            this = args.pop(0)
        if len(args) == sum(split):
            args = [args.pop(0) if k == 1 else tuple(args.pop(0) for _ in range(k)) for k in split]
        if len(args) != len(types):
            raise Unsupported("arguments of %s are split" % f.dem[:200])
        key = [name]
        shown = []
        outs = []
        cls = base.split("::")[-2].split("<")[0] if "::" in base else ""
        ctor = this is not None and re.sub(r"<.*", "", base.split("::")[-1]) == cls
        if this is not None and not ctor:
            if any(c in base for c in self.version) and cls in self.version:
                t = self.gridkey(st, this)
                if not f.dem.endswith("const"):
                    outs.append(("version", this, "this"))
            else:
                t = self.obj(st, this)
            key.append(t)
            shown.append(("this", "key", t))
        for n, (t, x) in enumerate(zip(types, args)):
            plain = t.replace(" const&", "").replace("&", "").strip()
            if re.match(r"(hclpp::|Kokkos::)?View<|Kokkos::View<", plain):
                rank = plain.split(",")[0].count("*")
                h = self.handle(st, x)
                ro = "const" in plain.split(",")[0]
                if not ro:
                    outs.append(("view", h, rank, n))
                if ro or name not in self.pure:
                    c = self.content(st, h, rank)
                    key.append(c)
                    shown.append((n, "view", c))
                else:
                    v = [ev.view_of(p, rank) for _, p in self.leaves(h, st.g) if p.o is not NULLO]
                    key.append(tuple(self.val(st, e) for e in v[0].ext) if v else "none")
                    shown.append((n, "extent", key[-1]))
            elif plain.split("::")[-1] in self.version:
                k = self.gridkey(st, x, name in self.birth)
                key.append(k)
                shown.append((n, "key", k))
                if not t.endswith("const&"):
                    outs.append(("version", x, n))
            elif plain in ("int", "double", "bool", "unsigned int", "long", "unsigned long") and not t.endswith("*"):
                ty = {"double": "f64", "bool": "i8", "long": "i64", "unsigned long": "i64"}.get(plain, "i32")
                v = x
                if t.endswith("&"):
                    v = ev.load(st, x, ty, tysize(ty))
                    if not t.endswith("const&"):
                        outs.append(("scalar", x, ty, n))
                if isinstance(v, E) and v.k == "i":
                    v = ev.simp(v)
                key.append(self.val(st, v))
                shown.append((n, "num", v))
            elif "basic_string<" in plain and not t.endswith("*"):
                s = ev.getstr(st, x)
                key.append(("str", self.strkey(s)))
                shown.append((n, "str", s))
            elif "vector<std::pair" in plain:
                k = self.listkey(st, x)
                key.append(self.strkey(k))
                shown.append((n, "list", k))
            elif isinstance(x, (Ptr, PIte)):
                sz = None
                mt = re.search(r"std::array<int, (\d+)u?l?>", plain)
                if mt:
                    v = tuple(ev.load(st, ev.padd(x, 4 * i), "i32", 4) for i in range(int(mt.group(1))))
                    key.append(tuple(self.val(st, y) for y in v))
                    shown.append((n, "nums", v))
                    continue
                k = self.obj(st, x) if sz is None else self.bytes(st, x, sz)
                key.append(k)
                shown.append((n, "key", k))
            else:
                key.append(self.val(st, x))
                shown.append((n, "num", x) if isinstance(x, (E, int, B)) else (n, "key", self.val(st, x)))
        vers = self.ident(tuple(key), st.g)
        if name == self.tick:
            self.phase += 1
            alive = FALSE
            for k, g in self.cases(self.counter(st, "tick"), st.g):
                if k < self.unroll:
                    alive = X.bor(alive, g)
            if alive is FALSE:
                return DEAD  # the rest of the run is not examined
            if alive is not canon.guard(st.g):
                st.g = alive
        if name in self.observe:
            self.note(st, name, shown)
        ev.event(st, "step " + name, tuple(shown))
        who = this if ctor else None
        if len(vers) == 1:
            return self.outputs(st, name, vers[0][1], outs, who, cls, sret, I)
        res = []
        for g, ver in vers:
            s2 = st.fork()
            s2.g = g
            res.append((s2, [self.outputs(s2, name, ver, outs, who, cls, sret, I)]))
        s2, (r,) = ev.merge(res)
        save = st.g
        for a in State.__slots__:
            setattr(st, a, getattr(s2, a))
        st.g = save
        return r

    def outputs(self, st, name, ver, outs, ctor, cls, sret, I):
        ev = self.ev
        if ctor is not None:
            if cls in self.version:
                ev.fill(st, ctor, self.sizeof(ctor), "sym", (cls.lower(), -ctor.off))
                self.setversion(st, ctor, ver)
                ev.wmem(st, ctor.o).cells[ctor.off - 128] = (32, Str(("version", ver)))
            else:
                nm = cls.lower() if cls in ("Param", "ParamSetup") else "%s@%d" % (cls, ver)
                ev.fill(st, ctor, self.sizeof(ctor), "sym", (nm, -ctor.off))
            return UNDEF
        for o in outs:
            nm = "%s.%s@%d" % (name, o[-1], ver)
            if o[0] == "view":
                self.assign(st, o[1], o[2], nm)
            elif o[0] == "scalar":
                ty = o[2]
                v = X.sym(nm, "f" if ty == "f64" else "i")
                ev.store(st, o[1], v, tysize(ty), ty)
            else:
                self.setversion(st, o[1], nm)
        if sret is not None:
            ev.fill(st, sret, self.sizeof(sret), "sym", ("%s@%d" % (name, ver), -sret.off))
            return UNDEF
        if I[2] == "void":
            return UNDEF
        nm = "%s@%d" % (name, ver)
        if I[2] == "i1":
            return X.bvar(("P", nm, X.sym(nm)))
        if I[2][0] in "{[":
            raise Unsupported("step %s returns an aggregate" % name)
        return ev.symval(nm, I[2])

    def setversion(self, st, p, ver):
        m = self.ev.wmem(st, p.o)
        m.cells[p.off - 64] = (32, Str(("version", ver)))

    def sizeof(self, p):
        if p.o.size is None or not isconst(p.o.size):
            return 4096
        return p.o.size - p.off

    def listkey(self, st, p):
        c = self.ev.getmem(st, p.o).cells.get(p.off - 64)
        return c[1].t if c is not None else ()


def ignored(ev, st, a, I, f):
    ty = I[2]
    if ty == "void":
        return UNDEF
    if ty == "ptr" and a:
        return a[0]
    return ev.symval("ignored", ty)


# ------------------------------------------------------------------ library calls of the main program
LIB = []


def lib(rx):
    def d(fn):
        LIB.append((re.compile(rx), fn))
        return fn

    return d


PATH = r"std::filesystem::__cxx11::path::"


@lib(PATH + r"path\(\)")
def _(S, ev, st, a, I, f):
    ev.setstr(st, a[0], "")
    return UNDEF


@lib(PATH + r"(path|operator=|assign)(<.*>)?\(|" + PATH + r"~path")
def _(S, ev, st, a, I, f):
    n, t = params(f.dem)
    if "~" in n:
        return UNDEF
    x = t[0]
    if "basic_string_view" in x:
        from .models import sv_term

        v = ev.getstr(st, a[1]) if x.endswith("&") and isinstance(a[1], Ptr) and False else None
        if x.endswith("&"):
            v = sv_term(ev, st, ev.load(st, a[1], "i64", 8), ev.load(st, ev.padd(a[1], 8), "ptr", 8))
        else:
            v = sv_term(ev, st, a[1], a[2])
    elif "path" in x:
        v = ev.getstr(st, a[1])
    elif x == "char const*":
        v = ev.cstr(st, a[1])
    elif x in ("char* const&", "char const* const&"):
        v = ev.cstr(st, ev.load(st, a[1], "ptr", 8))
    elif "basic_string<" in x:
        v = ev.getstr(st, a[1])
    else:
        raise Unsupported("path from " + x)
    ev.setstr(st, a[0], v)
    return a[0] if I[2] == "ptr" else UNDEF


@lib(PATH + r"(empty|c_str|native)\(\) const")
def _(S, ev, st, a, I, f):
    from .models import streq

    t = ev.getstr(st, a[0])
    if "empty" in f.dem:
        return streq(t, "")
    if "c_str" in f.dem:
        return ev.mkcstr(t)
    return a[0]


@lib(PATH + r"(filename|stem|parent_path)\(\) const")
def _(S, ev, st, a, I, f):
    ev.setstr(st, a[0], ("path part", f.dem, ev.getstr(st, a[1])))
    return UNDEF


@lib(r"std::chrono::_V2::(steady|system)_clock::now\(\)")
def _(S, ev, st, a, I, f):
    n = S.counter(st, "clock")
    r = None
    for k, g in S.cases(n, st.g):
        c = X.sym("clock@%d" % k, "i")
        r = c if r is None else X.ite(g, c, r)
    return r


@lib(r"(std::pair<int, double>& |void )?std::vector<std::pair<int, double>.*>::(emplace_back|push_back)")
def _(S, ev, st, a, I, f):
    n, t = params(f.dem)
    if len(t) == 2:
        x, y = ev.load(st, a[1], "i32", 4), ev.load(st, a[2], "f64", 8)
    else:
        x, y = ev.load(st, a[1], "i32", 4), ev.load(st, ev.padd(a[1], 8), "f64", 8)
    k = S.listkey(st, a[0])
    ev.wmem(st, a[0].o).cells[a[0].off - 64] = (32, Str((k, x, y)))
    return a[0] if I[2] == "ptr" else UNDEF


@lib(r"std::vector<std::pair<int, double>.*>::~?vector\(")
def _(S, ev, st, a, I, f):
    return UNDEF


@lib(r"MPI_(Barrier|Bcast)$")
def _(S, ev, st, a, I, f):
    n = f.dem
    if n == "MPI_Bcast":
        v = ev.load(st, a[0], "i8", 1)
        k = S.note(st, n, [("count", "num", ev.asint(a[1])), ("root", "num", ev.asint(a[3])), ("type", "key", S.val(st, a[2])), ("comm", "key", S.val(st, a[4])), ("value", "num", v)])
        r = None
        for k, g in S.cases(k, st.g):
            b = X.bvar(("P", "broadcast", X.sym("broadcast@%d" % k)))
            r = b if r is None else X.bite(g, b, r)
        ev.store(st, a[0], X.ite(r, 1, 0), 1, "i8")
    else:
        S.note(st, n, [("comm", "key", S.val(st, a[0]))])
    return 0


@lib(r"(PDI|PC)_\w+$")
def _(S, ev, st, a, I, f):
    n = f.dem
    if n in S.observe:
        S.note(st, n, [(i, "num", x) if isinstance(x, (E, int)) else (i, "key", S.val(st, x)) for i, x in enumerate(a)] if n not in ("PC_tree_destroy", "PDI_init") else [])
    ty = I[2]
    if ty == "void":
        if f.args and f.args[0][2] == "sret":
            ev.fill(st, a[0], S.sizeof(a[0]), "sym", (n, -a[0].off))
        return UNDEF
    return ev.symval(n, ty)


@lib(r"INIReader::Get\(")
def _(S, ev, st, a, I, f):
    ev.setstr(st, a[0], ("ini", ev.getstr(st, a[2]), ev.getstr(st, a[3]), ev.getstr(st, a[4])))
    return UNDEF


@lib(r"INIReader::(INIReader|~INIReader)\(")
def _(S, ev, st, a, I, f):
    if "~" not in f.dem:
        S.reader = ev.getstr(st, a[1])
    return UNDEF
