"""Meaning of the PDI calls under a description of the files (decl_hdf5 plugin): which array elements go to, or
come from, which elements of which dataset of which file, as terms over the exposed values."""
import re

import yaml

from . import expr as X
from .eval import Base, Entry, Ptr, Str, Unsupported, View
from .expr import B, E, FALSE, TRUE, band, bnot
from .models import cat, dataptr, model, sv_term, vite

SIZES = {"int": ("i32", 4), "double": ("f64", 8), "char": ("i8", 1), "MPI_Comm": ("ptr", 8), "int64": ("i64", 8), "float": ("f32", 4)}
TOKEN = re.compile(r"\s*(\$\{?(\w+)(\[|\})?|\d+\.?\d*|<=|>=|!=|==|[-+*/%()<>=&|\]])")


class Access:
    def __init__(self, **k):
        self.__dict__.update(k)


class Pdi:
    def __init__(self, ev, text):
        self.ev = ev
        c = yaml.safe_load(text)
        self.meta = c.get("metadata") or {}
        self.data = c.get("data") or {}
        f = (c.get("plugins") or {}).get("decl_hdf5") or []
        self.files = f if isinstance(f, list) else [f]
        self.plugins = set(c.get("plugins") or {})
        self.val = {}  # value of the metadata
        self.ptr = {}  # data exposed at the moment
        self.access = []
        self.events = []
        self.problems = []
        self.probe = None  # contents of an array at the moment it is written

    # ---- expressions
    def parse(self, s, st):
        toks = []
        i = 0
        s = s.rstrip()
        while i < len(s):
            m = TOKEN.match(s, i)
            if not m:
                raise Unsupported("expression %r of the file description" % s)
            t = m.group(1)
            if t.startswith("$"):
                brace = t.startswith("${")
                name = m.group(2)
                i = m.end()
                if m.group(3) == "}" and not brace or (brace and m.group(3) is None):
                    raise Unsupported("reference %r of the file description" % s)
                toks.append(("ref", name, m.group(3) == "[", brace))
                continue
            toks.append(t)
            i = m.end()
        self.t, self.i = toks, 0
        v = self.orex(st)
        if self.i != len(self.t):
            raise Unsupported("expression %r of the file description" % s)
        return v

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def truth(self, v):
        return v if isinstance(v, B) else TRUE if v not in (0,) and not isinstance(v, E) else FALSE if v == 0 and not isinstance(v, E) else bnot(X.icmp("eq", v, 0))

    def orex(self, st):
        v = self.andex(st)
        while self.peek() == "|":
            self.take()
            v = X.bor(self.truth(v), self.truth(self.andex(st)))
        return v

    def andex(self, st):
        v = self.cmp(st)
        while self.peek() == "&":
            self.take()
            v = band(self.truth(v), self.truth(self.cmp(st)))
        return v

    def cmp(self, st):
        v = self.sum(st)
        o = self.peek()
        if o in ("=", "==", "!=", "<", ">", "<=", ">="):
            self.take()
            w = self.sum(st)
            v = X.icmp({"=": "eq", "==": "eq", "!=": "ne", "<": "slt", ">": "sgt", "<=": "sle", ">=": "sge"}[o], v, w)
            if isinstance(v, bool) or v in (0, 1) and not isinstance(v, (B, E)):
                v = TRUE if v else FALSE
        return v

    def sum(self, st):
        v = self.term(st)
        while self.peek() in ("+", "-"):
            v = (X.iadd if self.take() == "+" else X.isub)(v, self.term(st))
        return v

    def term(self, st):
        v = self.atom(st)
        while self.peek() in ("*", "/", "%"):
            o = self.take()
            w = self.atom(st)
            if o != "*":
                raise Unsupported("division in the file description")
            v = X.imul(v, w)
        return v

    def atom(self, st):
        t = self.take()
        if t == "(":
            v = self.orex(st)
            self.take()
            return v
        if t == "-":
            return X.isub(0, self.atom(st))
        if isinstance(t, tuple):
            i = None
            if t[2]:
                i = self.orex(st)
                if self.take() != "]":
                    raise Unsupported("index in the file description")
            return self.ref(t[1], i)
        if t.isdigit():
            return int(t)
        raise Unsupported("token %r in the file description" % (t,))

    def ref(self, name, i=None):
        if name not in self.val:
            raise Unsupported("the file description uses %s, which was never exposed" % name)
        v = self.val[name]
        if i is not None:
            if not isinstance(v, list) or not isinstance(i, int):
                raise Unsupported("%s[%s] in the file description" % (name, i))
            return v[i]
        return v

    def num(self, e, st):
        if isinstance(e, (int, E)):
            return e
        return self.parse(str(e), st)

    def nums(self, e, st):
        return [self.num(x, st) for x in e] if isinstance(e, list) else [self.num(e, st)]

    def text(self, s):
        """string with embedded references"""
        out = ""
        i = 0
        for m in re.finditer(r"\$(\{(\w+)\}|(\w+))", s):
            out = cat(out, s[i:m.start()])
            v = self.ref(m.group(2) or m.group(3))
            out = cat(out, v.t if isinstance(v, Str) else str(v) if isinstance(v, int) else ("fmt", v))
            i = m.end()
        return cat(out, s[i:])

    # ---- calls
    def share(self, st, name, p, acc):
        name = self.ev.cstr(st, name)
        if not isinstance(name, str):
            raise Unsupported("PDI name that is not known")
        if name in self.meta:
            t = self.meta[name]
            if isinstance(p, Ptr) and p.o.kind == "null":
                raise Unsupported("null pointer for %s" % name)
            if isinstance(t, dict):
                n = self.num(t["size"], st)
                lt, sz = SIZES[t["subtype"]]
                if t["subtype"] == "char":
                    self.val[name] = Str(sv_term(self.ev, st, n, p))
                else:
                    self.val[name] = [self.ev.load(st, self.ev.padd(p, k * sz), lt, sz) for k in range(n)]
            else:
                lt, sz = SIZES[t]
                self.val[name] = self.ev.load(st, p, lt, sz)
        self.ptr[name] = (p, acc)

    def event(self, st, name, where):
        name = self.ev.cstr(st, name)
        self.events.append((name, st.g, where))
        hit = False
        for f in self.files:
            on = f.get("on_event")
            if name not in (on if isinstance(on, list) else [on]):
                continue
            hit = True
            g = st.g
            if "when" in f:
                g = band(g, self.truth(self.parse(f["when"], st)))
            for kind in ("write", "read"):
                for var, l in (f.get(kind) or {}).items():
                    for e in l if isinstance(l, list) else [l]:
                        self.one(st, f, kind, var, e or {}, g, name, where)
        return hit

    def one(self, st, f, kind, var, e, g, event, where):
        if isinstance(e, str):
            e = {"dataset": e}
        if "when" in e:
            g = band(g, self.truth(self.parse(e["when"], st)))
        if g is FALSE:
            return
        t = self.data.get(var, self.meta.get(var))
        dset = self.text(e.get("dataset", var))
        a = Access(kind=kind, event=event, n=len(self.events), var=var, g=g, where=where, file=self.text(f["file"]), dataset=dset, collision=f.get("collision_policy"),
                   comm=self.parse(f["communicator"], st) if "communicator" in f else None, type=t["subtype"] if isinstance(t, dict) else t)
        self.access.append(a)
        if t is None or var not in self.ptr:
            a.ptr = None
            self.problems.append((g, "%s is %s but not exposed by the program when %s happens" % (var, "written" if kind == "write" else "read", event), where))
            return
        a.ptr, a.acc = self.ptr[var]
        a.mem = self.nums(t["size"], st) if isinstance(t, dict) else []
        ms = e.get("memory_selection") or {}
        a.size = self.nums(ms["size"], st) if "size" in ms else a.mem
        a.start = self.nums(ms["start"], st) if "start" in ms else [0] * len(a.mem)
        d = (f.get("datasets") or {}).get(dset if isinstance(dset, str) else "")
        a.declared = d is not None
        a.dmem = self.nums(d["size"], st) if d else a.size if kind == "write" else None
        a.dtype = d["subtype"] if d else a.type
        ds = e.get("dataset_selection") or {}
        a.dsize = self.nums(ds["size"], st) if "size" in ds else a.dmem
        a.dstart = self.nums(ds["start"], st) if "start" in ds else None if a.dmem is None else [0] * len(a.dmem)
        lt, sz = SIZES[a.type]
        if kind == "write":
            if a.acc not in (2, 3):
                self.problems.append((g, "%s is written but exposed without read access" % var, where))
            if not a.mem:
                a.value = self.ev.load(st, a.ptr, lt, sz)
            elif self.probe:
                a.content = self.probe(st, a)
            return
        if a.acc not in (1, 3):
            self.problems.append((g, "%s is read but exposed without write access" % var, where))
        if not a.mem:
            v = self.ev.symval("file:%s" % dset, lt)
            a.value = v
            if g is not st.g:
                v = vite(g, v, self.ev.load(st, a.ptr, lt, sz))
            self.ev.store(st, a.ptr, v, sz, lt)
        else:
            self.fill(st, a, g)

    def fill(self, st, a, g):
        """contents that come from the file"""
        ev = self.ev
        if not (isinstance(a.ptr, Ptr) and a.ptr.o.kind == "data"):
            raise Unsupported("PDI reads %s into %r" % (a.var, a.ptr))
        v = a.ptr.o.x
        b = Base("file:%s" % (a.dataset,), len(a.mem), tuple(a.mem), ("sym", "file:%s" % (a.dataset,)), "file")
        lead = len(a.size) - (len(a.dstart) if a.dstart is not None else len(a.size))
        ds = [ev.new("f", "i") for _ in a.size]
        save = list(ev.facts)
        for d, h in zip(ds, a.size):
            ev.fact(d)
            ev.fact(X.isub(X.isub(h, d), 1))
        val = ev.vload(b, tuple(X.iadd(d, s) for d, s in zip(ds[lead:], a.dstart or [0] * len(ds))), g)
        ev.facts = save
        ev.fmemo = {}
        e = Entry()
        idx = [X.iadd(d, s) for d, s in zip(ds, a.start)][::-1]  # column major
        if len(idx) != v.rank:
            return
        e.idx = v.map(tuple(idx))
        e.g = g
        e.ctx, e.kern, e.where = tuple(ev.ctx), None, a.where
        e.quant = [(d, 0, h) for d, h in zip(ds, a.size)]
        e.val, e.src, e.lim = val, None, None
        ev.push(v.base, e)


@model("PDI_multi_expose")
def _(ev, st, a, I, f):
    pdi = ev.pdi
    names = []
    i = 1
    while i + 2 < len(a) or i < len(a):
        n = a[i]
        if isinstance(n, Ptr) and n.o.kind == "null":
            break
        if i + 2 >= len(a):
            raise Unsupported("PDI_multi_expose without terminator")
        if pdi is not None:
            pdi.share(st, n, a[i + 1], a[i + 2])
        names.append((n, a[i + 1], a[i + 2]))
        i += 3
    ev.event(st, "PDI", (ev.cstr(st, a[0]), [ev.cstr(st, n) for n, _, _ in names]))
    if pdi is not None:
        pdi.event(st, a[0], ev.where())
        pdi.ptr = {}
    return 0


@model("PDI_expose", "PDI_share")
def _(ev, st, a, I, f):
    if ev.pdi is not None:
        ev.pdi.share(st, a[0], a[1], a[2])
        if f.name == "PDI_expose":
            ev.pdi.ptr = {k: v for k, v in ev.pdi.ptr.items() if k != ev.cstr(st, a[0])}
    return 0


@model("PDI_event")
def _(ev, st, a, I, f):
    ev.event(st, "PDI", (ev.cstr(st, a[0]), []))
    if ev.pdi is not None:
        ev.pdi.event(st, a[0], ev.where())
    return 0


@model("PDI_reclaim", "PDI_release")
def _(ev, st, a, I, f):
    if ev.pdi is not None:
        ev.pdi.ptr.pop(ev.cstr(st, a[0]), None)
    return 0
