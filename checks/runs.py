"""The main program: what a whole run does, against a plain restatement of it (spec/d_main.cpp)."""
import re
import sys
import time

from vf import canon, compare, expr as X, steps
from vf.check import Config
from vf.compare import Assume, Stats, Undecided, differ
from vf.eval import Eval, Mem, Obj, Ptr, State, showterm
from vf.expr import FALSE, TRUE, B, E, band, bnot, bor
from vf.ir import HERE, REPO

from . import prop

SOURCES = ["src/main.cpp", "d_main.cpp", "src/mesh/range.cpp", "src/boundary.cpp", "src/shift_criterion_interface.cpp"]
STEP = [(r"(void |auto |double )?hclpp::%s(<.*>)?\(" % n, n) for n in "time_step pressure_fix conv_prim_to_cons conv_cons_to_prim temperature make_uniform_gravity".split()] + [
    (r"hclpp::MUSCLHancockHydroReconstruction<.*>::execute\(", "reconstruct"),
    (r"hclpp::RiemannBasedGodunovScheme<.*>::execute\(", "godunov"),
    (r"(void )?hclpp::DistributedBoundaryCondition::operator\(\)", "boundary"),
]
IGNORE = [r"hclpp::print_simulation_status", r"(void )?hclpp::print_info", r"hclpp::Grid::print_grid", r"hv_print_conf", r"hclpp::MpiScopeGuard", r"std::(basic_ostream|ostream|operator<<)",
          r"(std::basic_ostream<char, std::char_traits<char>>& )?std::operator<<", r"hclpp::XmlWriter::~", r"hclpp::I\w+::I\w+\(\)$"]
PURE = ["reconstruct", "godunov", "conv_cons_to_prim", "temperature"]
WRITE = "directory prefix output_id iter_output_id time_output_id iter t gamma grid rho u P E x0 x1 x2 fx T".split()
INDEX = "directory prefix nfx grid output_id record x0 x1 x2".split()
READ = "file output_id iter_output_id time_output_id iter t rho u P fx x0 x1 x2".split()


def ev_text(t):
    return t if isinstance(t, str) else t[1]


class Run:
    """one evaluation of a program"""

    def __init__(self, S, ev, f, argv, given=None):
        S.restart()
        st = S.start()
        o = Obj("heap", "argv", 8 * len(argv))
        st.mem[o] = Mem(st.tok)
        for i, a in enumerate(argv):
            ev.store(st, Ptr(o, 8 * i), ev.mkcstr(("str", a) if i == 1 else a), 8, "ptr")
        if given is not None:
            st.g = band(st.g, given)
        self.g0 = canon.guard(st.g)
        n, self.first = len(ev.events), S.count
        st, self.value = ev.call_function(f, [len(argv), Ptr(o, 0)], st)
        self.end = canon.guard(st.g) if st is not None else FALSE
        self.events = ev.events[n:]
        self.trace = S.trace
        self.throws = FALSE
        self.throw_at = []
        for e in self.events:
            if e.name == "throw":
                self.throws = bor(self.throws, canon.guard(e.g))
                self.throw_at.append((canon.guard(e.g), e.where))
        self.slots = {}
        for t in self.trace:
            self.slots.setdefault((t.name, t.n), []).append((canon.guard(t.g), t))
        self.steps = {}
        for e in self.events:
            if e.name.startswith("step "):
                self.steps.setdefault(e.name[5:], []).append((canon.guard(e.g), e))

    def guard(self, k):
        g = FALSE
        for h, _ in self.slots.get(k, ()):
            g = bor(g, h)
        return g

    def arg(self, k, i, g):
        return canon.norm([(h, t.args[i][2]) for h, t in self.slots[k]], g)


class Pair:
    """the program and its restatement"""

    def __init__(self, c, cfg, n, argv=("program", "input"), given=None, extra=()):
        sys.setrecursionlimit(200000)
        self.c = c
        c.patience = getattr(c, "patience", 60)
        X.ORDERED[0] = True
        self.p = c.program(SOURCES, cfg, extra=["-iquote", HERE + "/spec/opaque_setup"] + list(extra))
        self.ev = ev = Eval(self.p)
        self.S = S = steps.Steps(ev, STEP, IGNORE, pure=PURE, birth=["DistributedBoundaryCondition"], tick="time_step", unroll=n,
                                 ordered=["PDI_init", "write_pdi_init", "step_read", "step_write", "PDI_finalize"],
                                 observe=["write_pdi_init", "step_write", "step_index", "step_read", "MPI_Bcast", "PDI_init", "PC_parse_path", "PC_parse_string", "PDI_finalize"])
        self.names = self.fields()
        for d in range(3):  # the domain has cells (Grid's constructor refuses anything else)
            ev.fact(X.isub(self.names["Nx_glob_ng"][d], 1))
            ev.fact(X.isub(self.names["Nghost"][d], 1 if d < cfg.dim else 0))
        canon.known[0] = ev.simpb
        self.rank0 = canon.guard(X.icmp("eq", self.names["mpi_rank"], 0))
        given = given(self) if given else None
        self.impl = Run(S, ev, self.p.funcs["main"], argv, given)
        self.ref = Run(S, ev, self.p.funcs["_Z14reference_mainiPPc"], argv, given)
        c.need(len(argv) < 2 or self.ref.trace and self.impl.trace, "the main program makes no observable call")
        c.count("runs compared")
        c.count("step calls in the program", sum(len(v) for v in self.impl.steps.values()))
        for f in ev.inlined:
            f = self.p.funcs[f]
            if f.file.startswith(REPO):
                c.funcs.add(f.dem.split("(")[0])
        c.count("IR instructions interpreted", ev.steps)
        self.label = "%s, %d iteration%s" % (cfg.key(), n, "s" if n > 1 else "")

    def fields(self):
        ev = self.ev
        n = len(ev.events)
        ev.call_function(self.p.funcs["_Z16reference_fieldsiPPc"], [0, Ptr(Obj("heap", "none", 8), 0)], State())
        r = {}
        for e in ev.events[n:]:
            k, name = ev_text(e.args[0]).split(" ")
            r.setdefault(name, []).append(e.args[1])
        return {k: v[0] if len(v) == 1 else v for k, v in r.items()}

    def truth(self, name):
        v = self.names[name]
        return bnot(X.icmp("eq", v, 0)) if isinstance(v, E) else v

    def cause(self):
        """first step of the restatement that the program does not perform with the same inputs"""
        S = self.S
        for n in sorted(S.raw):
            if n < self.ref.first:
                continue
            k, g = S.raw[n]
            best = None
            for m, (q, qg) in S.raw.items():
                if m >= self.ref.first or q[0] != k[0]:
                    continue
                h = band(g, qg)
                if h is FALSE:
                    continue
                d = [i for i, (a, b) in enumerate(zip(k, q)) if canon.struct(a, h) != canon.struct(b, h)]
                if best is None or len(d) < len(best[1]):
                    best = (m, d, h)
            if best is None:
                return "%s is never called where the run needs it" % k[0], None
            if not best[1]:
                continue
            i = best[1][0]
            return "%s is called with a different argument %d: %.150s instead of %.150s" % (k[0], i, canon.struct(S.raw[best[0]][0][i], best[2]), canon.struct(k[i], best[2])), S.at.get(best[0])
        return None, None

    def argname(self, k, i):
        if self.impl.slots[k][0][1].args[i][0] == "before":
            return "place among the calls of the data interface"
        l = {"step_write": WRITE, "step_index": INDEX, "step_read": READ}.get(k[0])
        return l[i] if l else str(i)

    def what(self, k):
        return {"step_write": "output file %d", "step_index": "index file %d", "step_read": "restart %d", "write_pdi_init": "description %d of the run", "MPI_Bcast": "broadcast %d"}.get(k[0], k[0] + " %d") % k[1]


SCHEDULE = {"place among the calls of the data interface", "output_id", "iter_output_id", "time_output_id", "iter", "t", "record"}
RANK3 = re.compile(r"\.(rho|u|P|fx|[0-9]+)@")


def assume(p):
    pos = p.ev.positive
    a = Assume(lambda n: n in pos)
    for f in p.ev.facts:
        a.add(f, 0, (0, 1), True)
    return a


def same(p, a, b, where):
    """a case-by-case comparison of what is not the same term; stops early (what is the same is rarely a different term)"""
    if p.c.viol:  # nothing left to save
        return False
    t = time.monotonic()
    compare.LIMIT[0] = t + min(20, p.c.patience)
    try:
        return differ(a, b, assume(p), Stats(), 4000, where) is None
    except Undecided:
        return False
    finally:
        compare.LIMIT[0] = None
        p.c.patience -= time.monotonic() - t


def same_guard(p, a, b, where):
    return a is b or same(p, a, b, where)


def same_value(p, k, i, g):
    x, y = p.impl.arg(k, i, g), p.ref.arg(k, i, g)
    if x == y:
        return True
    l = [[(h, t.args[i][2]) for h, t in r.slots[k]] for r in (p.impl, p.ref)]
    if any(not isinstance(v, (E, int)) for q in l for _, v in q):
        return False
    x, y = (fold(q) for q in l)
    return same(p, x, y, g)


def fold(cases):
    r = None
    for h, v in cases:
        r = v if r is None else X.ite(h, v, r)
    return r


def differences(c, p, where, guards, args):
    """compare the observable calls made where the guard holds"""
    keys = sorted(set(p.impl.slots) | set(p.ref.slots))
    n = 0
    for k in keys:
        a, b = band(p.impl.guard(k), where), band(p.ref.guard(k), where)
        if guards and guards(k):
            n += 1
            if not same_guard(p, a, b, where):
                d = band(a, bnot(b))
                extra = d is not FALSE
                d = d if extra else band(b, bnot(a))
                at = p.impl.slots[k][0][1].where if k in p.impl.slots else "src/main.cpp: main"
                c.violation("%s is %s" % (p.what(k), "made where the run must not make it" if extra else "not made where the run must make it"), at, "when %.400s [%s]" % (" and ".join(path(d)), p.label))
        g = band(a, b)
        if g is FALSE:
            continue
        for i in range(len(p.impl.slots[k][0][1].args)):
            nm = p.argname(k, i)
            if not args(k, nm):
                continue
            n += 1
            h = g
            if k[0] == "MPI_Bcast" and p.impl.slots[k][0][1].args[i][0] == "value":  # only the root's value matters
                h = band(g, p.rank0)
                if h is FALSE:
                    continue
            if not same_value(p, k, i, h):
                why, at = p.cause()
                at = at or p.impl.slots[k][0][1].where
                x, y = p.impl.arg(k, i, h), p.ref.arg(k, i, h)
                c.violation("%s: %s differs from what the run defines" % (p.what(k), nm), at, "%s [%s]" % (why or "%.200r instead of %.200r" % (x, y), p.label))
    c.count("obligations", n)
    return n


def path(b):
    """one satisfying path, last conditions first"""
    out = []
    while b.id > 1:
        hi = b.hi is not FALSE
        out.append(("" if hi else "not ") + X.showvar(b.v, 4))
        b = b.hi if hi else b.lo
    return out[::-1][:6]


# scenarios of two time steps (one time step is examined from every possible state)
TWO = [["restart", "-by_time", "moving", "-pressure_fix"], ["-restart", "by_time", "by_iteration", "-moving"], ["restart", "by_time", "-by_iteration", "-moving", "pressure_fix"]]
G3 = Config(3, "Spherical", "PerfectGas", "Internal_mass")


def scenario(names):
    def f(p):
        g = TRUE
        for n in names:
            t = p.truth(n.lstrip("-"))
            g = band(g, bnot(t) if n[0] == "-" else t)
        return g

    return f


def pairs(c):
    yield Pair(c, Config(1), 1)
    for s in TWO:
        yield Pair(c, Config(1), 2, given=scenario(s))
    yield Pair(c, G3, 1)
    if c.tier == "thorough":
        yield Pair(c, Config(2, "Cartesian", "PerfectGas", "Point_mass"), 1)
        yield Pair(c, Config(3), 2, given=scenario(TWO[0]))
        yield Pair(c, G3, 2, given=scenario(TWO[1]))
        yield Pair(c, Config(1), 3, given=scenario(["restart", "-by_time", "by_iteration", "-moving", "-pressure_fix"]))
        yield Pair(c, Config(1), 2)


def ok(p):
    return bnot(bor(p.impl.throws, p.ref.throws))


@prop("R01", "Composition of a run")
def r01(c):
    c.rule("every array, name and parameter handed to the output, index and restart files equals that of a plain restatement of the run, for every value of every parameter, one time step from an arbitrary (restarted or initial) state and two steps; the numerical operators are uninterpreted: the same operator applied to the same contents gives the same contents")
    for p in pairs(c):
        differences(c, p, ok(p), lambda k: k[0] == "write_pdi_init", lambda k, n: (k[0].startswith("step_") or k[0] == "write_pdi_init") and n not in SCHEDULE)


@prop("R02", "Time step, schedule and end of a run")
def r02(c):
    c.rule("the conditions under which each output, index, restart, broadcast, barrier and finalisation happens, their numbering, iteration and time equal those of a plain restatement of the schedule, for every value of every parameter")
    for p in pairs(c):
        differences(c, p, ok(p), lambda k: True, lambda k, n: n in SCHEDULE or k[0] == "MPI_Bcast")


@prop("R03", "Errors and end of a run")
def r03(c):
    c.rule("a run ends by an exception exactly when its restatement does; an invalid state is written first, with the same contents; the command-line selects the input/output description; the process exits with a failure exactly when an exception left the run")
    todo = [(Config(1), 1, ("program", "input")), (G3, 1, ("program", "input")), (Config(1), 1, ("program",))]
    todo += [(Config(1), 1, ("program", "input") + x) for x in (("--pdi-config=a",), ("--pdi-config=a", "--pdi-config=b"), ("--pdi-config=",), ("--pdi-config", "--other=b"), ("x--pdi-config=a",), ("--pdi-config=a", "--pdi-config="))]
    for cfg, n, argv in todo:
        base = len(argv) > 2
        p = Pair(c, cfg, n, argv, given=scenario(["restart", "-by_time", "-moving", "-pressure_fix"]) if base else None)
        label = " ".join(argv)
        c.count("obligations")
        c.count("conditions that end a run by an exception", len(p.impl.throw_at))
        if not same_guard(p, p.impl.throws, p.ref.throws, TRUE):
            d = band(p.impl.throws, bnot(p.ref.throws))
            extra = d is not FALSE
            d = d if extra else band(p.ref.throws, bnot(p.impl.throws))
            at = [w for g, w in p.impl.throw_at if band(g, d) is not FALSE] if extra else []
            c.violation("%s: the run %s" % (label, "fails where it must not" if extra else "does not fail where it must"), at[0] if at else "src/main.cpp: main", "when %.400s [%s]" % (" and ".join(path(d)), p.label))
        both = band(p.impl.throws, p.ref.throws)
        differences(c, p, both, lambda k: True, lambda k, n: True)
        differences(c, p, ok(p), lambda k: k[0].startswith("P"), lambda k, n: k[0].startswith("P"))
        if p.impl.end is not FALSE:
            c.count("obligations")
            if p.impl.value != 0:
                c.violation("exit status of a run that succeeds is not 0", "src/main.cpp: main", repr(p.impl.value))
    status(c)


def status(c):
    """exit status when an exception leaves the run"""
    p = c.program(["src/main.cpp"], Config(1), extra=["-iquote", HERE + "/spec/opaque_setup", "+exceptions"])
    ev = Eval(p)
    st = State()
    thrown = [FALSE]
    calls = []
    exc = Obj("heap", "exception", 64)
    st.mem[exc] = Mem(st.tok)
    ev.fill(st, Ptr(exc, 0), 64, "sym", ("exception", 0))

    def unwind(I):
        n = I[4][1] if isinstance(I[4], list) else ""
        d = p.funcs[n].dem if n in p.funcs else ""
        if d.startswith("std::") or n.startswith("__cxa") or "std::operator" in d or "basic_ostream" in d:
            return None
        calls.append(d)
        b = X.bvar(("P", "fails", X.sym("run@%d" % len(calls))))
        thrown[0] = bor(thrown[0], b)
        return b

    def step(f):
        if f.dem.startswith("llvm.eh.typeid.for"):
            return lambda ev, st, a, I, f: X.sym("type:" + str(a[0].o.name), "i")
        if "hclpp::" in f.dem and not f.dem.startswith("std::"):
            return lambda ev, st, a, I, f: X.sym("result:" + f.dem, "i") if I[2][0] == "i" else None if I[2] != "void" else 0
        return None

    from vf.eval import Agg
    ev.hooks.update(unwind=unwind, landing=lambda: Agg((Ptr(exc, 0), X.sym("type:_ZTISt9exception", "i"))), step=step)
    st2, v = ev.call_function(p.funcs["main"], [2, Ptr(Obj("heap", "argv", 16), 0)], st)
    c.need(calls, "main calls nothing that can fail")
    c.count("obligations", 2)
    t = thrown[0]
    g = st2.g if st2 is not None else FALSE
    # where the run fails and main returns: not 0; where it does not fail: returns 0
    zero = X.icmp("eq", v, 0) if isinstance(v, E) else TRUE if v == 0 else FALSE
    bad = band(band(g, t), zero)
    if bad is not FALSE:
        c.violation("the process reports success although an exception left the run", "src/main.cpp: main", "when %s" % X.showb(bad))
    if band(bnot(t), bnot(band(g, zero))) is not FALSE:
        c.violation("the process reports failure although no exception left the run", "src/main.cpp: main", "value %s" % (X.show(v) if isinstance(v, E) else v))
    caught = band(g, t)
    if caught is not t:
        c.violation("an exception of the run is not caught", "src/main.cpp: main", "when %s" % X.showb(band(t, bnot(g))))


@prop("B04", "Choice of the boundary conditions")
def b04(c):
    c.rule("the condition applied to each face of the domain is the one named for that face, else for its direction, else for the domain; a face without a name is an error; UserDefined selects the one of the setup; after the moving grid has reached its limit the outer condition is the null gradient")
    for cfg in [Config(1), Config(2), Config(3), G3]:
        p = Pair(c, cfg, 1)
        n = 0
        for g in (p.impl.throws, p.ref.throws):
            pass
        c.count("obligations")
        for f in ("MPI_Barrier",):
            a, b = p.impl.guard((f, 0)), p.ref.guard((f, 0))
            if not same_guard(p, a, b, TRUE):
                d = band(a, bnot(b))
                c.violation("a face without boundary condition is %s" % ("accepted" if d is not FALSE else "refused"), "src/main.cpp: main", "when %.300s [%s]" % (" and ".join(path(d if d is not FALSE else band(b, bnot(a)))), p.label))
        for i, (a, b) in enumerate(zip(firsts(p.impl), firsts(p.ref))):
            c.count("obligations")
            n += 1
            g = band(a[0], b[0])
            c.need(g is not FALSE, "boundary conditions are applied in different situations")
            if canon.struct(a[1], g) != canon.struct(b[1], g):
                c.violation("boundary conditions of the domain (application %d)" % i, a[2], "%s [%s]" % (show_faces(a[1], b[1], g), p.label))
        c.need(n, "the boundary conditions are never applied")


def firsts(r):
    """the conditions in the first application of the boundary conditions"""
    out = []
    for g, e in r.steps.get("boundary", [])[:1]:
        out.append((g, e.args[1][2], e.where))
    return out


def show_faces(a, b, g):
    for i, (x, y) in enumerate(zip(a, b)):
        if canon.struct(x, g) != canon.struct(y, g):
            return "face %d: %.300s instead of %.300s" % (i, canon.struct(x, g), canon.struct(y, g))
    return "different number of faces"


COLLECTIVE = {"time_step", "minimum_internal_energy", "integrate", "boundary", "step_write", "step_read", "step_shift", "make_internal_mass_gravity", "Grid", "setup_initialization", "setup_shift_criterion",
              "setup_grid", "DistributedBoundaryCondition", "write_pdi_init", "set_grid", "step_user_step", "setup_user_step"}


def rank_local(p, g):
    """names of the values a condition depends on that differ between processes"""
    shared = set()
    for k in ("Ng", "range_ghosts", "mpi_size", "Nghost", "Nx_glob_ng", "mpi_dims_cart"):
        v = p.names[k]
        for x in v if isinstance(v, list) else [v]:
            shared.add(X.show(x))
    out = []
    for a in sorted(X.atoms(g), key=lambda x: x.id):
        n = X.show(a)
        if a.op == "ld":
            if len(a.a) > 2:  # contents of a field of the process
                out.append(n)
        elif n.startswith("grid") and n not in shared or n.startswith("clock"):
            out.append(n)
    return out


@prop("P01", "All processes make the same collective calls")
def p01(c):
    c.rule("the condition of every collective operation (reductions, broadcasts, barriers, exchanges, parallel files) and of every early end of a run depends only on values that are the same on every process: not on the rank, the sub-domain, the fields or the clock of the process")
    for cfg in [Config(1), G3, Config(2, "Cartesian", "PerfectGas", "Point_mass")]:
        p = Pair(c, cfg, 1)
        n = 0
        for e in p.impl.events:
            nm = e.name[5:] if e.name.startswith("step ") else e.name
            if nm in COLLECTIVE or nm == "throw":
                n += 1
                loc = rank_local(p, canon.guard(e.g))
                if loc:
                    c.violation("%s depends on the process" % ("the end of the run" if nm == "throw" else "the call of " + nm), e.where, "its condition involves %s [%s]" % (", ".join(loc[:6]), p.label))
        for t in p.impl.trace:
            if t.name.startswith("MPI_"):
                n += 1
                loc = rank_local(p, canon.guard(t.g))
                if loc:
                    c.violation("the call of %s depends on the process" % t.name, t.where, "its condition involves %s [%s]" % (", ".join(loc[:6]), p.label))
                for a in t.args:
                    if a[0] == "root" and rank_local(p, X.bvar(("P", "root", a[2])) if isinstance(a[2], E) else TRUE):
                        c.violation("the root of %s depends on the process" % t.name, t.where, "")
        c.need(n > 5, "no collective call found")
        c.count("obligations", n)
