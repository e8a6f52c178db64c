"""Ghost cells: exchanges, physical conditions, their order; objects selected by name; user steps."""
import itertools
import multiprocessing

from vf import expr as X
from vf.check import JOBS, Config
from vf.expr import FALSE, TRUE

from . import prop

SRC = ["d_boundary.cpp"] + ["src/%s.cpp" % n for n in ("boundary", "boundary_distribute", "utils/param")]
DIMS = [Config(d) for d in (1, 2, 3)]


@prop("B01", "Ghost cells shared with neighbours")
def b01(c):
    c.rule("with the same program on every process, a message received from a neighbour is the message it sends, evaluated on its fields; after the exchange every cell of the array, ghost layers and corners included, holds the value of the process that owns the cell, for every field and component; partners, tags, counts and shapes of the messages agree")
    fns = ["halo1", "halo2", "halo2_aware", "halo3"]
    c.run(SRC, fns, DIMS[:2])
    c.run(SRC, fns if c.tier == "thorough" else ["halo2"], DIMS[2:])


@prop("B02", "Physical boundary conditions")
def b02(c):
    c.rule("every ghost cell beyond the face holds the nearest interior value (null gradient) or the mirror value with the normal momentum reversed (reflexive), for every field; every other cell is untouched")
    for cfg in DIMS:
        c.run(SRC, ["%s_%d_%s" % (k, d, s) for k in ("null", "reflex", "periodic") for d in range(cfg.dim) for s in ("left", "right")], [cfg])


NAMES = [("X_left", "X0_left"), ("X_right", "X0_right"), ("Y_left", "X1_left"), ("Y_right", "X1_right"), ("Z_left", "X2_left"), ("Z_right", "X2_right")]


def meaning(text, nf):
    """expected sequence of faces, or None when the list has to be rejected"""
    t = text.split()
    if not t:
        return list(range(nf))[::-1] if text == "" else None
    face = {n: i for i, p in enumerate(NAMES[:nf]) for n in p}
    if sorted(face.get(x, -1) for x in t) != list(range(nf)):
        return None
    return [face[x] for x in reversed(t)]


_job = None


def _one(text):
    c, p, nf = _job

    def setup(ev, st):
        ev.cases = {"priority": text}
        ev.hooks["nocontents"] = True
        ev.hooks["may_diverge"] = True

    ev = c.eval_fn(p, "bc_order", setup)
    want = meaning(text, nf)
    got = [(e.args[1], e) for e in ev.events if e.name == "note" and e.args[0] == "apply"]
    if want is None:
        return None if ev.final is None else ("not rejected", "applies " + str([g for g, _ in got]), "src/boundary_distribute.cpp")
    if ev.final is None:
        return ("rejected", "expected order of application: %s" % want, "src/boundary_distribute.cpp")
    where = got[0][1].where if got else "src/boundary_distribute.hpp"
    if [g for g, _ in got] != want:
        return ("faces are filled in another order", "expected %s, found %s" % (want, [g for g, _ in got]), where)
    flags = {e.args[1]: X.bnot(X.icmp("eq", e.args[2], 0)) for e in ev.events if e.name == "note" and e.args[0] == "border"}
    for f, e in got:
        if e.g is not flags[f]:
            return ("face %d is filled on other processes than those at the border" % f, "when %s" % X.showb(e.g), e.where)
    names = [e.name for e in ev.events]
    if "MPI_Sendrecv_replace" in names or "MPI_Sendrecv" in names:
        last = max(i for i, n in enumerate(names) if n.startswith("MPI_Sendrecv"))
        first = min(i for i, e in enumerate(ev.events) if e.name == "note" and e.args[0] == "apply")
        if last > first:
            return ("physical conditions applied before the end of the exchanges", "", where)
    return None


@prop("B03", "Order of the boundary conditions")
def b03(c):
    global _job
    c.rule("for every list of faces (all permutations, both spellings; every list with a missing, repeated or unknown face is an error): the faces are filled from the last named to the first named, each once and only on processes at that border, after all exchanges; without a list the priority is X left, X right, Y left, ...")
    for cfg in DIMS:
        nf = 2 * cfg.dim
        p = c.program(SRC, cfg)
        base = [n[0] for n in NAMES[:nf]]
        alt = [n[1] for n in NAMES[:nf]]
        lists = [""] + [" ".join(q) for q in itertools.permutations(base)]
        lists += [" ".join(alt), " ".join(alt[::-1]), " ".join(base[:-1]), " ".join(base + ["W_left"]), "  ".join(base[::-1]), " ".join(base + base[:1])]
        mixed = [a if i % 2 else b for i, (a, b) in enumerate(zip(alt, base))]
        lists += [" ".join(mixed)]
        for i in range(nf):
            for w in ["W_left", "X"] + [n[0] for n in NAMES] + [n[1] for n in NAMES[nf:]]:
                lists.append(" ".join(base[:i] + [w] + base[i + 1:]))
        lists = sorted(set(lists))
        _job = (c, p, nf)
        c.eval_fn(p, "bc_order", lambda ev, st: (ev.cases.update({"priority": ""}), ev.hooks.update({"nocontents": True})))
        with multiprocessing.get_context("fork").Pool(JOBS) as pool:
            res = pool.map(_one, lists, 8)
        c.count("obligations", len(lists))
        c.count("priority lists", len(lists))
        for text, r in zip(lists, res):
            if r:
                c.violation("priority \"%s\" [%s]: %s" % (text, cfg, r[0]), r[2], r[1])


FSRC = ["d_factory.cpp"] + ["src/%s.cpp" % n for n in (
    "boundary", "hydro/face_reconstruction", "mesh/grid_factory", "mesh/grid_type", "mesh/geometry_factory", "mesh/geometry",
    "user_step/user_step", "user_step/user_step_factory", "mesh/range", "mesh/grid")]


@prop("C04", "Algorithms selected by name")
def c04(c):
    c.rule("for an arbitrary name: the factory returns an object of exactly the class documented for that name, with the face it was asked for, and every other name is an error")
    cfgs = [Config(1), Config(2, "Spherical"), Config(3)]
    c.run(FSRC, ["f_boundary", "f_reconstruction", "f_godunov", "f_grid", "f_step", "f_geometry"], cfgs)


@prop("U02", "Heating by radioactive decay")
def u02(c):
    c.rule("one user step adds dt*rho*X*rate(t) to the energy of every cell of the range, with the two-stage decay rate, and changes nothing else; without a user step nothing changes")
    c.run(FSRC, ["step_nickel", "step_off"], DIMS)
