"""The test problems: initial states and their boundary conditions."""
from vf import expr as X
from vf.check import Config
from vf.expr import FALSE, TRUE, E, band, bnot
from vf.models import Ob

from . import prop

SRC = ["d_setup.cpp", "src/mesh/range.cpp", "src/initialization_interface.cpp"]
# problem: passive scalars, dimensions, geometries, gas + radiation possible, refused geometry
ALLG = ("Cartesian", "Spherical")
PROBLEMS = {
    "shock_tube": (0, (1, 2, 3), ALLG, True, None),
    "shock_wall": (0, (1, 2, 3), ALLG, True, None),
    "advection_gap": (0, (1, 2, 3), ALLG, True, None),
    "advection_sinus": (0, (1, 2, 3), ALLG, True, None),
    "sedov1d": (0, (1,), ALLG, True, None),
    "sedov2d": (0, (2, 3), ("Cartesian",), True, "Spherical"),
    "sedov3d": (0, (3,), ("Spherical",), True, "Cartesian"),
    "gresho_vortex": (0, (2,), ("Cartesian",), True, None),
    "heat_nickel": (1, (1, 2, 3), ALLG, True, None),
    "implosion_test": (0, (2, 3), ("Cartesian",), False, None),
    "kelvin_helmholtz": (0, (2,), ("Cartesian",), False, None),
    "rayleigh_taylor": (1, (2,), ("Cartesian",), True, None),
    "rayleigh_taylor3d": (1, (3,), ("Cartesian",), False, None),
    "eq_hydro_sphe": (0, (1, 2, 3), ("Spherical",), True, None),
    "stratified_atm": (0, (1, 2, 3), ("Cartesian",), True, None),
}
WHERE = "src/setups/%s/setup.hpp: hclpp::InitializationSetup::execute"


def at_root(ev):
    """a broadcast sends what the process with the first block of the domain computes"""

    def f(v, root):
        m = {}
        for d in range(3):
            m[atom("c%d" % d).id] = 0
        if not isinstance(root, int) or root != 0:
            return X.fn("bcast:%s" % (X.show(root) if isinstance(root, E) else root), v)
        return X.subst(v, m)

    return f


def atom(n):
    return X.mk("sym", (n,), "i")


def prepare(cfg):
    def setup(ev, st):
        ev.at_root = at_root(ev)
        ev.hooks["may_diverge"] = True

    return setup


def configs(c, name):
    nfx, dims, geoms, rad, bad = PROBLEMS[name]
    for d in dims if c.tier == "thorough" or len(dims) == 1 else (dims[0], dims[-1]):
        for g in geoms if c.tier == "thorough" else (geoms[-1:] if d == dims[-1] else geoms[:1]) if len(dims) > 1 else geoms:
            yield Config(d, g, "PerfectGas", "Uniform", name)
    if rad:
        yield Config(dims[-1], geoms[0], "RadGas", "Uniform", name)


KEEP = ("ini:", "glob", "eos", "random#", "PI")


def elsewhere(vals, facts, dim):
    """the same cell of the domain in another decomposition with another number of ghost layers"""
    m = {}
    ng2, ng = X.sym("ng'", "i"), X.sym("ng", "i")
    for a in X.atoms(tuple(vals) + tuple(facts)):
        if a.op != "sym" or a.a[0].startswith(KEEP) or a.a[0] in "ijk":
            continue
        n = X.sym(a.a[0] + "'", a.k)
        m[a.id] = n if a.k == "i" else n
    for d, n in enumerate("ijk"):
        c, c2 = X.sym("c%d" % d, "i"), X.sym("c%d'" % d, "i")
        t = X.iadd(X.sym(n, "i"), X.isub(c, c2))
        if d < dim:
            t = X.iadd(t, X.isub(ng2, ng))
        m[atom(n).id] = t
    m["ld"] = lambda n: n + "'" if n.startswith("old ") else n
    memo = {}
    return [X.subst(v, m, memo) for v in vals], [X.subst(f, m, memo) for f in facts]


def program(c, cfg):
    nfx = PROBLEMS[cfg.setup][0]
    return c.program(SRC, cfg, ["-DHV_" + cfg.setup, "-DHV_NFX=%d" % nfx])


@prop("S01", "Initial states are complete and independent of the decomposition")
def s01(c):
    c.rule("after the initialisation every cell without ghosts has a density, pressure, velocity and scalars that are the same expression of the parameters and of the position of the cell in the domain for any two decompositions and numbers of ghost layers; all other cells keep their values")
    for name in PROBLEMS:
        for cfg in configs(c, name):
            p = program(c, cfg)
            ev = c.eval_fn(p, "state", prepare(cfg))
            notes = [(ev.cstr(None, e.args[0]) if not isinstance(e.args[0], str) else e.args[0], e) for e in ev.events if e.name == "note"]
            vals = [e.args[1] for _, e in notes]
            c.need(len(vals) == 2 + cfg.dim + PROBLEMS[name][0], "initial state of %s" % name)
            facts = list(ev.facts)
            for v, (what, e) in zip(vals, notes):
                [w], f2 = elsewhere([v], facts, cfg.dim)
                c.count("fields")
                ev.oblig.append(Ob("%s%s depends only on the parameters and the position of the cell" % (what, "".join(str(x) for x in e.args[2:])), v, w, TRUE, WHERE % name, "eq", facts + f2))
            c.discharge(ev, "%s [%s]" % (name, cfg))
            ev = c.eval_fn(p, "others", prepare(cfg))
            c.discharge(ev, "%s [%s]" % (name, cfg))


@prop("S02", "States of the test problems")
def s02(c):
    c.rule("the state of every cell after the initialisation equals the formula of the problem")
    for name in PROBLEMS:
        nfx, dims, geoms, rad, bad = PROBLEMS[name]
        for cfg in configs(c, name):
            p = program(c, cfg)
            ev = c.eval_fn(p, "formula", prepare(cfg))
            end = ev.final.g if ev.final is not None else FALSE
            ev.oblig.append(Ob("the problem can be set up", bnot(end), FALSE, TRUE, WHERE % name, "bool", ev.facts))
            c.discharge(ev, "%s [%s]" % (name, cfg))
        if bad:
            cfg = Config(dims[-1], bad, "PerfectGas", "Uniform", name)
            ev = c.eval_fn(program(c, cfg), "state", prepare(cfg))
            end = ev.final.g if ev.final is not None else FALSE
            ev.oblig.append(Ob("the geometry is refused", end, FALSE, TRUE, WHERE % name, "bool", ev.facts))
            c.discharge(ev, "%s [%s]" % (name, cfg))


@prop("S03", "Boundary conditions of the atmospheres")
def s03(c):
    c.rule("the user-defined condition of a face fills exactly the ghost cells beyond that face, with the conserved state of the hydrostatic formula of the problem")
    for name in ("eq_hydro_sphe", "stratified_atm"):
        for cfg in configs(c, name):
            p = c.program(SRC + ["src/boundary.cpp"], cfg, ["-DHV_" + name, "-DHV_NFX=0", "-DHV_BC"])
            for d in range(cfg.dim):
                for s in ("left", "right"):
                    ev = c.eval_fn(p, "face_%d_%s" % (d, s), prepare(cfg))
                    c.need(c.discharge(ev, "%s [%s] face %d %s" % (name, cfg, d, s)), "nothing stated")
