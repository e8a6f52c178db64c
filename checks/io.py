"""Files: outputs, restarts, indices."""
import re
import xml.etree.ElementTree as ET

from vf import expr as X, pdi
from vf.check import Config, strleaves
from vf.eval import Ptr, State, showterm
from vf.expr import FALSE, TRUE, B, E, band, bnot, bor
from vf.models import Ob, cat

from . import prop

SRC = ["d_io.cpp", "src/io/io.cpp", "src/io/config.yaml.cpp", "src/mesh/range.cpp"]
DIMS = [Config(1), Config(2), Config(3)]


def description(c, p):
    ev = c.eval_fn(p, "description", lambda ev, st: setattr(ev, "pdi", None))
    for e in ev.events:
        if e.name == "note":
            t = ev.cstr(State(), e.args[1])
            c.need(isinstance(t, str), "the built-in description of the files is not a constant")
            return t


def checked(w, name, want, extra):
    """(the extents of the dataset are those wanted, some extent read of it is not)"""
    ev = w.ev.events
    ok, bad = FALSE, extra
    for d in [e for e in ev if e.name == "h5 H5Dopen2" and e.args[2] in ("/" + name, name)]:
        for s in [e for e in ev if e.name == "h5 H5Dget_space" and e.args[1] is d.args[0]]:
            nd = [e for e in ev if e.name == "h5 H5Sget_simple_extent_ndims" and e.args[1] is s.args[0]]
            dm = [e for e in ev if e.name == "h5 H5Sget_simple_extent_dims" and e.args[1] is s.args[0]]
            if nd and dm:
                m = re.search(r"#(\d+)$", X.show(dm[0].args[0]))
                same = X.icmp("eq", nd[0].args[0], len(want))
                for k, n in enumerate(want):
                    same = band(same, X.icmp("eq", X.sym("dims#%s[%d]" % (m.group(1), k), "i"), n))
                ok = bor(ok, band(nd[0].g, same))
                bad = bor(bad, band(nd[0].g, bnot(same)))
    return ok, bad


class World:
    """one driver under the built-in description"""

    def __init__(self, c, p, fn, text, rank=1):
        self.c = c
        w = self

        self.views = {}
        self.scalars = {}

        def setup(ev, st):
            w.ev = ev
            ev.pdi = pdi.Pdi(ev, text)
            ev.h5rank = rank
            ev.pdi.probe = w.probe
            ev.hooks["may_diverge"] = True

        self.ev = ev = c.eval_fn(p, fn, setup)
        self.pdi = ev.pdi
        self.read()
        self.end = ev.final.g if ev.final is not None else FALSE

    def notes(self):
        for e in self.ev.events:
            if e.name == "note":
                yield e, [e.args[0]] + [self.txt(a) for a in e.args[1:]]

    def txt(self, a):
        if isinstance(a, Ptr) and a.o.kind == "glob":
            t = self.ev.cstr(State(), a)
            if isinstance(t, str):
                return t
        return a

    def read(self):
        self.size = []
        self.node = {}
        self.other = []
        for e, a in self.notes():
            if a[0] == "cell":
                self.cell = a[1:]
            elif a[0] == "size":
                self.size.append(a[1:])
            elif a[0] == "node":
                self.node[a[1]] = a[2]
            elif a[0] == "view":
                self.views[a[2].o.x.base] = a[1]
            elif a[0] == "scalar":
                self.scalars[a[1]] = a[2]
            elif a[0] == "rank":
                self.rank = a[1]
            elif a[0] == "comm":
                self.comm = a[1]
            else:
                self.other.append((e, a))

    def probe(self, st, a):
        if not (isinstance(a.ptr, Ptr) and a.ptr.o.kind == "data" and a.ptr.off == 0):
            return None
        self.read()
        v = a.ptr.o.x
        g = st.g
        if v.rank == 1:
            m = [self.node[d] for d in self.node]
            return [self.ev.vload(v.base, v.map((x,)), g) for x in m]
        idx = tuple(self.cell)
        if v.rank == 3:
            return self.ev.vload(v.base, v.map(idx), g)
        n = v.ext[3]
        return [self.ev.vload(v.base, v.map(idx + (q,)), g) for q in range(n)] if isinstance(n, int) else None

    def ob(self, what, a, b, g, where, kind="eq"):
        self.ev.oblig.append(Ob(what, a, b, g, where, kind, self.ev.facts))

    def covered(self, what, need, got, where):
        """everywhere the run goes on normally and need holds, got holds"""
        self.ob(what, band(band(self.end, need), bnot(got)), FALSE, TRUE, where, "bool")


def norm(t):
    """flat text: literals, terms, padded numbers"""
    out = []
    width, fill = 0, " "
    for x in (t[1:] if isinstance(t, tuple) and t[0] == "cat" else [t]):
        if isinstance(x, tuple) and x[0] == "manip":
            if "_Setw" in x[1]:
                width = x[2]
                continue
            if "_Setfill" in x[1]:
                fill = chr(x[2]) if isinstance(x[2], int) else x[2]
                continue
        if width and isinstance(x, tuple) and x[0] == "fmt":
            x = ("pad", width, fill, x[1])
            width = 0
        elif width and isinstance(x, str) and x:
            x = x.rjust(width, fill)
            width = 0
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def path(t):
    return [re.sub("/+", "/", x) if isinstance(x, str) else x for x in norm(t)]


def sameterm(a, b):
    if isinstance(a, (E, int)) or isinstance(b, (E, int)):
        return isinstance(a, (E, int)) and isinstance(b, (E, int)) and X.isub(a, b) == 0 if not (isinstance(a, E) and a.op not in ("ip",) and a is b) else True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(sameterm(x, y) for x, y in zip(a, b))
    return a == b


def known_cells(w):
    """offset, global index, global size of the arbitrary cell, last direction first"""
    z = w.size[::-1]
    return [s[0] for s in z], [s[1] for s in z], [s[2] for s in z], [s[3] for s in z]


def left(idx, ext):
    a = 0
    for i, n in reversed(list(zip(idx, ext))):
        a = X.iadd(X.imul(a, n), i)
    return a


def c_order(idx, ext):
    a = 0
    for i, n in zip(idx, ext):
        a = X.iadd(X.imul(a, n), i)
    return a


def field_of(w, a):
    """field, and its view"""
    if a.ptr is None:
        return None, None
    if isinstance(a.ptr, Ptr) and a.ptr.o.kind == "data" and a.ptr.off == 0:
        v = a.ptr.o.x
        return w.views.get(v.base), v
    return None, None


def distributed(w, a, f, v, q, dset):
    """the arbitrary cell of the block <-> its place in the global dataset"""
    n, off, gi, glob = known_cells(w)
    lead = len(a.size) - 3
    tag = "%s %s: " % (a.kind, dset)
    if lead < 0 or len(a.mem) != len(a.size) or len(a.start) != len(a.size) or len(a.dsize) != 3 or len(a.dstart) != 3:
        w.c.violation(tag + "selection of the wrong rank", "src/io/config.yaml.cpp: io_config", "memory %s, dataset %s" % (a.size, a.dsize))
        return
    where = "src/io/config.yaml.cpp: io_config (%s)" % a.event
    for k in range(lead):
        w.ob(tag + "one component is selected", a.size[k], 1, a.g, where)
    o = [0] * lead + off
    for k in range(3):
        w.ob(tag + "the cells without ghosts are selected", a.size[lead + k], n[k], a.g, where)
        w.ob(tag + "size of the part of the dataset", a.dsize[k], n[k], a.g, where)
        w.ob(tag + "position in the dataset is the global position of the cell", X.iadd(a.dstart[k], off[k]), gi[k], a.g, where)
        if a.kind == "write":
            w.ob(tag + "the dataset has the global size", a.dmem[k], glob[k], a.g, where)
    idx = list(w.cell) + ([q] if v.rank == 4 else [])
    if v.rank not in (3, 4):
        w.c.violation(tag + "is not a field", where, "rank %s" % v.rank)
        return
    w.ob(tag + "element of the array in memory", c_order([X.iadd(s, x) for s, x in zip(a.start, o)], a.mem), left(idx, v.ext), a.g, where)


def outputs(dim, nfx):
    """dataset -> (field, component)"""
    r = {k: (k, None) for k in ("rho", "P", "E", "T")}
    r.update({"ux%d" % d: ("u", d) for d in range(dim)})
    r.update({"fx%d" % q: ("fx", q) for q in range(nfx)})
    return r


REPLICATED = ["output_id", "iter_output_id", "time_output_id", "iter", "current_time", "gamma"]
MAIN = "src/io/io.cpp: hclpp::write_pdi"


def problems(w):
    for g, what, where in w.pdi.problems:
        if band(g, w.end) is not FALSE or True:
            w.c.violation(what, where, "when %s" % X.showb(g))
    w.c.count("obligations")


def writes(w):
    r = {}
    for a in w.pdi.access:
        if a.kind == "write":
            r.setdefault(showterm(a.dataset).strip("'"), []).append(a)
    return r


@prop("I01", "Contents of the output files")
def i01(c):
    c.rule("under the built-in description each output dataset gets, at the global position of every cell of the block, the current value of that cell of the field it is named after (address computed from the exposed sizes and selections = address of the cell in the array); node coordinates and scalars completely; by the right processes, in the file of that output")
    for cfg in DIMS:
        for nfx in (0, 2) if c.tier == "quick" else (0, 1, 2, 10):
            p = c.program(SRC, cfg, ["-DHV_NFX=%d" % nfx])
            w = World(c, p, "output", description(c, p))
            problems(w)
            r = writes(w)
            name = ["cat", ("str", "directory"), "/", ("str", "prefix"), "_", ("pad", 8, "0", w.scalars["output_id"]), ".h5"][1:]
            rank0 = X.icmp("eq", w.rank, 0)
            for d in sorted(set(outputs(cfg.dim, nfx)) | set(REPLICATED) | {"x%d" % k for k in range(3)} | {"x%d_ng" % k for k in range(3)}):
                l = r.get(d, [])
                single = d not in outputs(cfg.dim, nfx)
                g = FALSE
                c.count("datasets")
                for a in l:
                    if band(g, a.g) is not FALSE:
                        c.violation("%s is written twice" % d, a.where, "")
                    g = bor(g, a.g)
                w.covered("%s is written" % d, rank0 if single else TRUE, g, l[0].where if l else MAIN)
                for a in l:
                    if a.ptr is None:
                        continue
                    c.count("obligations", 2)
                    for _, t in strleaves(a.file, a.g):
                        if not sameterm(path(t), name):
                            c.violation("%s is not written to the file of the output" % d, a.where, "%s instead of %s" % (path(t), name))
                    if single:
                        w.ob("%s is written by the first process only" % d, band(a.g, bnot(rank0)), FALSE, TRUE, a.where, "bool")
                        if a.comm is not None:
                            c.violation("%s is written collectively by one process" % d, a.where, "")
                        first = [b for b in w.pdi.access if b.kind == "write"][0]
                        if a.collision != "replace" and a.n == first.n:
                            c.violation("an existing file is not replaced", a.where, str(a.collision))
                    else:
                        if not sameterm(a.comm, w.comm):
                            c.violation("%s is not written collectively by the processes of the grid" % d, a.where, showterm(a.comm))
                        if a.collision != "write_into" or any(b.n >= a.n for x in REPLICATED for b in r.get(x, [])):
                            c.violation("%s replaces the file" % d, a.where, "%s" % (a.collision,))
                    if d in REPLICATED:
                        if a.mem:
                            c.violation("%s is not a single value" % d, a.where, "")
                            continue
                        want, got = w.scalars[d], a.value
                        w.ob("%s in the file" % d, got, X.unbits(want) if hasattr(X, "unbits") else want, a.g, a.where)
                        continue
                    f, v = field_of(w, a)
                    want, q = outputs(cfg.dim, nfx).get(d, (d[:2], None))
                    if f != want:
                        c.violation("dataset %s contains another field" % d, a.where, str(f))
                        continue
                    if any(x != ("d", k, 0) for k, x in enumerate(v.dims)) or a.type != "double" or a.dtype != "double":
                        c.violation("%s: element type or layout" % d, a.where, "%s %s" % (a.type, a.dtype))
                    if not single:
                        distributed(w, a, f, v, q, d)
                        got = a.content if v.rank == 3 else a.content[q]
                        src = X.mk("ld", (f + "0",) + tuple(w.cell) + ((q,) if v.rank == 4 else ()), "f")
                        w.ob("%s is up to date when it is written" % d, got, src, a.g, a.where)
                        continue
                    k = int(d[1])
                    ng, glob = w.size[k][4], w.size[k][3]
                    full = X.iadd(glob, X.iadd(X.imul(2, ng), 1))
                    ok = len(a.mem) == len(a.size) == len(a.start) == len(a.dmem) == len(a.dsize) == 1
                    if not ok:
                        c.violation("%s: selection of the wrong rank" % d, a.where, "")
                        continue
                    w.ob("%s: extent of the array" % d, a.mem[0], full, a.g, a.where)
                    w.ob("%s: number of nodes" % d, a.size[0], X.iadd(glob, 1) if d.endswith("_ng") else full, a.g, a.where)
                    w.ob("%s: first node" % d, a.start[0], ng if d.endswith("_ng") else 0, a.g, a.where)
                    w.ob("%s: size of the dataset" % d, a.dmem[0], a.size[0], a.g, a.where)
                    w.ob("%s: size of the part of the dataset" % d, a.dsize[0], a.size[0], a.g, a.where)
                    w.ob("%s: position in the dataset" % d, a.dstart[0], 0, a.g, a.where)
                    w.ob("%s is up to date when it is written" % d, a.content[k], X.mk("ld", (d[:2] + "0", w.node[k]), "f"), a.g, a.where)
            c.discharge(w.ev, "%s, %d passive scalars" % (cfg, nfx))


@prop("I02", "Restart files")
def i02(c):
    c.rule("the state read from a file of an earlier run is the state that run wrote: for every field the dataset and global position read into a cell are those the same field of that cell is written to; scalars and nodes likewise; both sides of the arrays see the values read")
    for cfg in DIMS:
        for nfx in (0, 2) if c.tier == "quick" else (0, 1, 2, 10):
            p = c.program(SRC, cfg, ["-DHV_NFX=%d" % nfx])
            text = description(c, p)
            w = World(c, p, "restart", text)
            o = World(c, p, "output", text)
            problems(w)
            tab = {}  # dataset -> (field, component) as written
            for a in o.pdi.access:
                if a.kind == "write" and a.ptr is not None:
                    f, v = field_of(o, a)
                    tab[showterm(a.dataset).strip("'")] = (a.var if not a.mem else f, a)
            names = outputs(cfg.dim, nfx)
            fields = {}
            for a in w.pdi.access:
                if a.kind != "read" or a.ptr is None:
                    continue
                c.count("datasets")
                c.count("obligations", 2)
                d = showterm(a.dataset).strip("'")
                if path(a.file) != [("str", "restart")]:
                    c.violation("%s is not read from the restart file" % d, a.where, str(path(a.file)))
                if not sameterm(a.comm, w.comm):
                    c.violation("%s is not read by the processes of the grid" % d, a.where, showterm(a.comm))
                if d not in tab:
                    c.violation("%s is not in the output files" % d, a.where, "")
                    continue
                if not a.mem:
                    if tab[d][0] != a.var or tab[d][1].type != a.type:
                        c.violation("%s is read as %s" % (tab[d][0], a.var), a.where, "")
                    fields.setdefault(a.var, []).append(a)
                    continue
                f, v = field_of(w, a)
                if f != tab[d][0] or a.type != "double":
                    c.violation("%s is read into %s" % (d, f), a.where, "")
                    continue
                fields.setdefault(d, []).append(a)
                if v.rank in (3, 4):
                    if a.dstart is None or a.dsize is None:
                        c.violation("%s: every process reads the whole domain" % d, a.where, "")
                        continue
                    distributed(w, a, f, v, names[d][1] if d in names else None, d)
                else:
                    b = tab[d][1]
                    w.ob("%s: extent" % d, a.mem[0], v.ext[0], a.g, a.where)
                    w.ob("%s: number of nodes read" % d, a.size[0], v.ext[0], a.g, a.where)
                    w.ob("%s: first node read" % d, a.start[0], 0, a.g, a.where)
                    if a.dstart is not None:
                        w.ob("%s: first node in the file" % d, a.dstart[0], 0, a.g, a.where)
            need = [x for x in REPLICATED if x != "gamma"] + [d for d in names if d not in ("E", "T")] + ["x0", "x1", "x2"]
            for d in need:
                g = FALSE
                for a in fields.get(d, []):
                    g = bor(g, a.g)
                w.covered("%s is read" % d, TRUE, g, "src/io/io.cpp: hclpp::read_pdi")
            # what the program has afterwards
            gi = known_cells(w)[2]
            n = 0
            for e, a in w.other:
                if a[0] == "value":
                    d = a[1] + (str(a[2]) if a[2] != -1 else "")
                    w.ob("value of %s after the restart" % d, a[3], X.mk("ld", ("file:" + d,) + tuple(gi), "f"), e.g, e.where)
                    n += 1
                elif a[0] == "nodes":
                    want = X.mk("ld", ("file:x%d" % a[1], w.node[a[1]]), "f")
                    for x in a[2:4]:
                        w.ob("nodes x%d after the restart" % a[1], x, want, e.g, e.where)
                    n += 1
            c.need(n >= 5 + cfg.dim, "the state after the restart is not observed")
            for k, v in w.scalars.items():
                w.ob("value of %s after the restart" % k, v, X.sym("file:" + k, "i" if k != "current_time" else "f"), w.end, "src/io/io.cpp: hclpp::read_pdi")
            c.discharge(w.ev, "%s, %d passive scalars" % (cfg, nfx))


def tokens(parts):
    """text with terms replaced by private-use characters"""
    out, tab = "", []
    for x in parts:
        if isinstance(x, str):
            out += x
        else:
            out += chr(0xE000 + len(tab))
            tab.append(x)
    return out, tab


def back(s, tab):
    out = []
    for ch in s or "":
        if 0xE000 <= ord(ch) < 0xE000 + len(tab):
            out.append(tab[ord(ch) - 0xE000])
        elif out and isinstance(out[-1], str):
            out[-1] += ch
        else:
            out.append(ch)
    return out


def nums(l):
    return [x for x in (y.strip() if isinstance(y, str) else y[1] if y[0] == "fmt" else y for y in l) if not (isinstance(x, str) and x == "")]


@prop("I03", "Index of the output files")
def i03(c):
    c.rule("the XDMF file is well-formed and names, for each output made so far, in order, its time, the nodes and every cell field in the HDF5 file of that output, with the sizes these datasets are written with")
    for cfg in DIMS:
        for nfx, rec in ((0, 1), (2, 2)) if c.tier == "quick" else ((0, 0), (0, 1), (1, 3), (2, 2), (10, 2)):
            p = c.program(SRC, cfg, ["-DHV_NFX=%d" % nfx, "-DHV_RECORDS=%d" % rec])
            text = description(c, p)
            w = World(c, p, "index_file", text)
            o = World(c, p, "output", text)
            rank0 = X.icmp("eq", w.rank, 0)
            where = "src/io/io.cpp: hclpp::XmlWriter::operator()"
            tag = "%s, %d passive scalars, %d outputs: " % (cfg, nfx, rec)
            g = FALSE
            n = 0
            for e in w.ev.events:
                if e.name != "file":
                    continue
                g = bor(g, e.g)
                c.count("obligations")
                if not sameterm(path(e.args[0]), [("str", "directory"), "/", ("str", "prefix"), ".xmf"]):
                    c.violation(tag + "name of the index file", e.where, str(path(e.args[0])))
                for h, t in strleaves(e.args[1], e.g):
                    n += 1
                    for what in index(c, w, o, t, cfg.dim, nfx, rec):
                        c.violation(tag + what[0], where, what[1])
            c.need(n, "no index file is written")
            w.ob("the index is written by the first process", g, rank0, w.end, where, "bool")
            c.discharge(w.ev, tag)


def index(c, w, o, t, dim, nfx, rec):
    s, tab = tokens(norm(t))
    try:
        root = ET.fromstring(s)
    except ET.ParseError as ex:
        yield "the index is not well-formed", "%s: %r" % (ex, s[:200])
        return

    def attr(x, k):
        return back(x.get(k), tab)

    def check(what, got, want):
        c.count("obligations")
        if not sameterm(got, want):
            yield what, "%s instead of %s" % (showterm(tuple(got)) if isinstance(got, list) else got, showterm(tuple(want)) if isinstance(want, list) else want)

    yield from check("root element", root.tag, "Xdmf")
    dom = root.findall("Domain")
    series = dom[0].findall("Grid") if len(dom) == 1 else []
    if len(series) != 1:
        yield "one domain with one series of outputs", "%d domains, %d series" % (len(dom), len(series))
        return
    yield from check("the series is temporal", (series[0].get("GridType"), series[0].get("CollectionType")), ("Collection", "Temporal"))
    grids = series[0].findall("Grid")
    times = [a[1] for e, a in w.other if a[0] == "time"]
    yield from check("number of outputs in the index", len(grids), rec)
    glob = [w.size[k][3] for k in (2, 1, 0)]
    cells = outputs(dim, nfx)
    written = writes(o)
    for i, gr in enumerate(grids[:rec]):
        file = [("str", "prefix"), "_", ("pad", 8, "0", X.iadd(w.scalars["output_id"], i + 1 - rec)), ".h5:/"]
        yield from check("each output is a uniform grid", gr.get("GridType"), "Uniform")
        tm = gr.findall("Time")
        yield from check("time of output %d" % i, [nums(attr(x, "Value")) for x in tm], [[times[i]]])
        top = gr.findall("Topology")
        yield from check("topology", [(x.get("TopologyType"), nums(attr(x, "Dimensions"))) for x in top], [("3DRectMesh", [X.iadd(n, 1) for n in glob])])
        geo = gr.findall("Geometry")
        yield from check("geometry", [x.get("GeometryType") for x in geo], ["VXVYVZ"])
        items = [(x, "x%d_ng" % k, [X.iadd(glob[2 - k], 1)]) for k, x in enumerate(geo[0].findall("DataItem"))] if geo else []
        yield from check("three node arrays", len(items), 3)
        at = gr.findall("Attribute")
        yield from check("fields in the index", tuple(sorted(x.get("Name") or "" for x in at)), tuple(sorted(cells)))
        for x in at:
            yield from check("kind of field", (x.get("Center"), x.get("AttributeType")), ("Cell", "Scalar"))
            l = x.findall("DataItem")
            if len(l) != 1:
                yield "one array per field", x.get("Name")
                continue
            items.append((l[0], x.get("Name"), glob))
        for x, name, size in items:
            yield from check("format of %s" % name, (x.get("Format"), x.get("NumberType"), x.get("Precision")), ("HDF", "Float", "8"))
            yield from check("size of %s" % name, nums(attr(x, "Dimensions")), size)
            ref = back((x.text or "").strip(), tab)
            yield from check("file and dataset of %s" % name, ref, file[:-1] + [file[-1] + name])
            wr = written.get(name)
            if not wr:
                yield "%s is not in the output files" % name, ""
            elif len(wr[0].dmem) != len(size):
                yield "%s has another rank in the output files" % name, ""


CLOSE = {"H5Fopen": "H5Fclose", "H5Fcreate": "H5Fclose", "H5Screate": "H5Sclose", "H5Screate_simple": "H5Sclose", "H5Tcopy": "H5Tclose", "H5Acreate2": "H5Aclose", "H5Acreate1": "H5Aclose", "H5Dopen2": "H5Dclose", "H5Dget_space": "H5Sclose",
         "H5Dget_type": "H5Tclose", "H5Aopen": "H5Aclose", "H5Gopen2": "H5Gclose", "H5Pcreate": "H5Pclose"}
STATUS = ("H5Tset_size", "H5Tset_cset", "H5Awrite")


def handles(w, extra=FALSE):
    """every identifier is closed once, by its own function, after its last use; every failure stops the function"""
    c = w.c
    calls = [(k, e) for k, e in enumerate(w.ev.events) if e.name.startswith("h5 ")]
    fail = extra
    n = 0
    for k, e in calls:
        f = e.name[3:]
        r = e.args[0]
        if f in CLOSE or f in STATUS:
            fail = bor(fail, band(e.g, X.icmp("slt", r, 0)))
        if f not in CLOSE:
            continue
        n += 1
        closed = FALSE
        for k2, e2 in calls:
            if k2 <= k or not any(isinstance(x, E) and x is r for x in e2.args[1:]):
                continue
            f2 = e2.name[3:]
            if f2 in CLOSE.values():
                c.count("obligations")
                if f2 != CLOSE[f]:
                    c.violation("%s is closed by %s" % (f, f2), e2.where, "")
                w.ob("%s is closed once" % f, band(closed, e2.g), FALSE, TRUE, e2.where, "bool")
                closed = bor(closed, e2.g)
            else:
                w.ob("%s is used before it is closed" % f, band(closed, e2.g), FALSE, TRUE, e2.where, "bool")
        w.covered("the result of %s is closed" % f, e.g, closed, e.where)
    c.need(n, "no HDF5 identifier")
    return fail


@prop("I04", "HDF5 files: errors and handles")
def i04(c):
    c.rule("each HDF5 identifier is closed exactly once, by the function for its kind, after its last use; a failing call ends the operation by an exception; a restart file whose node arrays have other sizes is refused; build information is attached to each output file by one process")
    for fn, rank in (("extents1", 1), ("extents3", 3)):
        p = c.program(SRC, Config(1))
        w = World(c, p, fn, description(c, p), rank)
        calls = {e.name[3:]: e for e in w.ev.events if e.name.startswith("h5 ")}
        c.need("H5Sget_simple_extent_ndims" in calls, "the extents are not read")
        k = None
        bad = bnot(X.icmp("eq", calls["H5Sget_simple_extent_ndims"].args[0], rank))
        for d in range(rank):
            m = re.search(r"#(\d+)$", X.show(calls["H5Sget_simple_extent_dims"].args[0]))
            bad = bor(bad, bnot(X.icmp("eq", X.sym("dims#%s[%d]" % (m.group(1), d), "i"), X.sym("expected" + (str(d) if rank > 1 else ""), "i"))))
        fail = handles(w)
        w.ob("the sizes are accepted exactly when they are equal", w.end, bnot(bor(fail, bad)), TRUE, "src/io/io_hdf5.hpp: hclpp::check_extent_dset", "bool")
        c.discharge(w.ev, fn)
    for cfg in DIMS if c.tier == "thorough" else [Config(1)]:
        p = c.program(SRC, cfg, ["-DHV_NFX=1"])
        text = description(c, p)
        w = World(c, p, "output", text)
        rank0 = X.icmp("eq", w.rank, 0)
        conv = FALSE
        for e in w.ev.events:
            if e.name.startswith("h5 "):
                break
            if e.name == "throw":
                conv = bor(conv, e.g)
        fail = handles(w, conv)
        where = "src/io/io.cpp: hclpp::write_pdi"
        w.ob("the output ends by an exception exactly when a call fails", w.end, bnot(fail), TRUE, where, "bool")
        ev = w.ev.events
        files = [(k, e) for k, e in enumerate(ev) if e.name == "h5 H5Fopen"]
        last = max(k for k, e in enumerate(ev) if e.name == "PDI")
        for k, e in files:
            c.count("obligations", 2)
            w.ob("one process attaches the build information", band(e.g, bnot(rank0)), FALSE, TRUE, e.where, "bool")
            if k < last:
                c.violation("the file is open while the processes write to it", e.where, "")
            if not sameterm(path(e.args[1]), [("str", "directory"), "/", ("str", "prefix"), "_", ("pad", 8, "0", w.scalars["output_id"]), ".h5"]) or e.args[2] != 1:
                c.violation("the build information is not written to the file of the output", e.where, "%s, mode %s" % (path(e.args[1]), e.args[2]))
        want = {a[1]: a[2:] for e, a in w.other if a[0] == "attribute"}
        c.need(len(want) == 4, "build information")
        for nm, (size, data) in want.items():
            g = FALSE
            for k, e in enumerate(ev):
                if e.name not in ("h5 H5Acreate2",) or e.args[2] != nm:
                    continue
                aid, fid, _, ty, sp = e.args[:5]
                c.count("obligations", 4)
                wr = [x for x in ev if x.name == "h5 H5Awrite" and x.args[1] is aid]
                sz = [x for x in ev if x.name == "h5 H5Tset_size" and x.args[1] is ty]
                mk = [x for x in ev if x.name == "h5 H5Tcopy" and x.args[0] is ty]
                spc = [x for x in ev if x.name == "h5 H5Screate" and x.args[0] is sp]
                if not any(x.args[0] is fid for _, x in files) or len(wr) != 1 or len(sz) != 1 or len(mk) != 1 or len(spc) != 1:
                    c.violation("attribute %s of the output file" % nm, e.where, "")
                    continue
                g = bor(g, wr[0].g)
                if not sameterm(sz[0].args[2], size) or wr[0].args[2] is not ty or showterm(wr[0].args[3]) != showterm(data) or spc[0].args[1] != 0:
                    c.violation("value of the attribute %s of the output file" % nm, e.where, "%s of size %s" % (showterm(wr[0].args[3]), showterm(sz[0].args[2])))
            w.covered("attribute %s is written" % nm, rank0, g, where)
        c.discharge(w.ev, "%s output" % cfg)
        w = World(c, p, "restart", text)
        conv = FALSE
        for e in w.ev.events:
            if e.name == "throw" and "Conversion" in showterm(e.args[1]):
                conv = bor(conv, e.g)
        bad = conv
        ev = w.ev.events
        for k in range(3):
            full = X.iadd(w.size[k][3], X.iadd(X.imul(2, w.size[k][4]), 1))
            ok, bad = checked(w, "x%d" % k, [full], bad)
            w.covered("the size of x%d in the restart file is checked" % k, TRUE, ok, "src/io/io.cpp: hclpp::read_pdi")
        fail = handles(w, bad)
        w.ob("the restart ends by an exception exactly when a call fails or the sizes differ", w.end, bnot(fail), TRUE, "src/io/io.cpp: hclpp::read_pdi", "bool")
        for e in ev:
            if e.name == "h5 H5Fopen":
                c.count("obligations")
                if path(e.args[1]) != [("str", "restart")] or e.args[2] != 0:
                    c.violation("the restart file is opened for writing, or is another file", e.where, "%s, mode %s" % (showterm(e.args[1]), e.args[2]))
        c.discharge(w.ev, "%s restart" % cfg)


V1D = ["d_v1d.cpp", "src/io/io.cpp", "src/io/config.yaml.cpp", "src/mesh/range.cpp", "src/initialization_interface.cpp", "src/broadcast.cpp", "src/mesh/grid_type.cpp", "src/shift_criterion_interface.cpp",
       "src/utils/param.cpp"]
SETUP = "src/setups/v1d/setup.hpp: hclpp::"


def v1d(c, cfg, nfx):
    return c.program(V1D, Config(cfg.dim, "Cartesian" if cfg.dim == 1 else "Spherical", "PerfectGas", "Uniform", "v1d"), ["-DHV_NFX=%d" % nfx])


def from_init_file(c, w, a, tag):
    p = path(a.file)
    if not (len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "ini" and [x.lower() for x in p[0][2:4]] == ["problem", "init_file"]):
        c.violation("%s is not read from the file named in the parameters" % tag, a.where, str(p))
    if not sameterm(a.comm, w.comm):
        c.violation("%s is not read by the processes of the grid" % tag, a.where, showterm(a.comm))


@prop("I05", "Start from a radial profile")
def i05(c):
    c.rule("the values read from the profile into a cell are the elements of the datasets at the global position of the cell in the first direction; the nodes read are the elements of the dataset of the same number; the extents of every dataset are compared with the grid; handles as for other files")
    for cfg in DIMS:
        for nfx in (0, 2) if c.tier == "quick" else (0, 1, 2, 3, 5):
            p = v1d(c, cfg, nfx)
            text = description(c, p)
            tag = "%s, %d passive scalars" % (cfg, nfx)
            w = World(c, p, "profile", text)
            problems(w)
            gi, glob = known_cells(w)[2][2], known_cells(w)[3][2]
            n = 0
            for a in w.pdi.access:
                if a.kind == "read":
                    from_init_file(c, w, a, showterm(a.dataset))
                    c.count("datasets")
                    c.count("obligations", 2)
                else:
                    c.violation("the profile is overwritten", a.where, a.var)
            for e, a in w.other:
                if a[0] != "value":
                    continue
                n += 1
                if a[1] == "u" and a[2] > 0:
                    want = X.ZERO
                elif a[1] == "fx":
                    want = X.mk("ld", ("file:fx_1d", a[2], gi), "f")
                else:
                    want = X.mk("ld", ("file:%s_1d" % a[1], gi), "f")
                w.ob("%s%s of the cell" % (a[1], a[2] if a[2] >= 0 else ""), a[3], want, e.g, e.where)
            c.need(n == 2 + cfg.dim + nfx, "the state after the initialisation is not observed")
            bad = FALSE
            for nm, ext in [("rho_1d", [glob]), ("u_1d", [glob]), ("P_1d", [glob])] + ([("fx_1d", [nfx, glob])] if nfx else []):
                ok, bad = checked(w, nm, ext, bad)
                w.covered("the size of %s is checked" % nm, TRUE, ok, SETUP + "InitializationSetup::execute")
            if not nfx:
                bad = checked(w, "fx_1d", [nfx, glob], bad)[1]
            fail = handles(w, bad)
            w.ob("the start ends by an exception exactly when a call fails or the sizes differ", w.end, bnot(fail), TRUE, SETUP + "InitializationSetup::execute", "bool")
            c.discharge(w.ev, tag)
        p = v1d(c, cfg, 1)
        w = World(c, p, "mesh", text)
        problems(w)
        where = SETUP + "GridSetup::execute"
        for a in w.pdi.access:
            if a.kind == "read":
                from_init_file(c, w, a, "the mesh")
                c.count("datasets")
        n = 0
        for e, a in w.other:
            if a[0] == "value":
                n += 1
                w.ob("node of the first direction", a[3], X.mk("ld", ("file:x0", w.node[0]), "f"), e.g, e.where)
        c.need(n == 1, "the mesh is not observed")
        full = X.iadd(w.size[0][3], X.iadd(X.imul(2, w.size[0][4]), 1))
        ok, bad = checked(w, "x0", [full], FALSE)
        w.covered("the size of x0 is checked", TRUE, ok, where)
        fail = handles(w, bad)
        w.ob("reading the mesh ends by an exception exactly when a call fails or the sizes differ", w.end, bnot(fail), TRUE, where, "bool")
        c.discharge(w.ev, "%s mesh" % cfg)


@prop("S04", "Criterion of the grid shift")
def s04(c):
    c.rule("the criterion equals the comparison of the maximum over the outermost cells of the last processes, reduced over all processes, with the limit; it fails on all processes together when the last one has fewer cells than that")
    for cfg in DIMS:
        p = v1d(c, cfg, 0)
        ev = c.eval_fn(p, "shift")
        c.discharge(ev, str(cfg))
