"""Parallel kernels: independence of the iterations."""
import multiprocessing

from vf import bounds, check, races
from vf.check import Check, Undecided, Unsupported, Vacuous
from vf.ir import BuildError, Config

from . import ALL, prop, setups


class Watch:
    """runs the drivers of another property and looks at the kernels only"""

    def __init__(self, c):
        self.c = c
        self.seen = set()

    def __getattr__(self, n):
        return getattr(self.c, n)

    def rule(self, t):
        pass

    def violation(self, *a, **k):
        pass

    def count(self, k, n=1):
        if k == "IR instructions interpreted":
            self.c.count(k, n)

    def discharge(self, ev, tag="", budget=0):
        return 1

    def holds(self, ev, ob):
        return True

    def run(self, srcs, fns, cfgs, setup=None, budget=40000, extra=()):
        Check.run(self, srcs, fns, cfgs, setup, budget, extra)

    def eval_fn(self, prog, name, setup=None, ctors=True):
        obs = []

        def hook(ev, k):
            if k.label == "rule":
                return
            n, r = races.conflicts(ev, k)
            self.seen.add((k.label, k.where))
            self.c.count("kernels")
            self.c.count("pairs of accesses", n)
            self.c.count("obligations", n - len(r))
            obs.extend(r)

        def both(ev, st):
            ev.hooks["kernel_end"] = hook
            if setup:
                setup(ev, st)

        ev = Check.eval_fn(self, prog, name, both, ctors)
        if obs:
            keep, ev.oblig = ev.oblig, obs
            self.c.discharge(ev, name)
            ev.oblig = keep
        return ev


SLOW = ("B01", "S01", "H12", "H10", "H13")
WITH_KERNELS = ("H01", "H09", "H10", "H11", "H12", "H13", "H14", "H15", "A01", "A02", "M02", "M03", "M05", "M06", "B01", "B02", "U02", "G02", "S01", "S03", "S04", "I05")


def look(arg):
    """one driver, in a process of its own"""
    pid, tier = arg
    check.JOBS = 1
    c = Check("P02", tier)
    w = Watch(c)
    err = None
    try:
        ALL[pid][1](w)
    except (BuildError, Vacuous, Unsupported, Undecided) as e:
        err = "%s: %s" % (pid, e)
    finally:
        c.b.close()
    return c.viol, c.undecided, c.counts, c.funcs, c.samples, c.b.units, w.seen, (c.stats.leaves, c.stats.skipped, c.stats.infeasible), err


def gather(c, fn, todo):
    """the parts of a check, in several processes"""
    seen = set()
    errs = []
    with multiprocessing.get_context("fork").Pool(min(6, check.JOBS), maxtasksperchild=1) as pool:
        for viol, und, counts, funcs, samples, units, s, st, err in pool.imap_unordered(fn, todo, 1):
            for v in viol:
                if v not in c.viol:
                    c.viol.append(v)
            c.undecided += und
            for k, n in counts.items():
                c.count(k, n)
            c.funcs |= funcs
            c.samples = (c.samples + samples)[:6]
            c.b.units += [u for u in units if u not in c.b.units]
            c.stats.leaves += st[0]
            c.stats.skipped += st[1]
            c.stats.infeasible += st[2]
            seen |= s
            if err:
                errs.append(err)
    c.need(not errs, "; ".join(errs))
    return seen


@prop("P02", "Kernels are free of data races")
def p02(c):
    c.rule("for every element written by an iteration of a kernel, no other iteration of the same kernel reads or writes it")
    todo = sorted(WITH_KERNELS, key=lambda p: SLOW.index(p) if p in SLOW else len(SLOW))
    seen = gather(c, look, [(p, c.tier) for p in todo])
    c.need(len(seen) > 20, "kernels")
    c.notes.append("kernels analysed: %s" % ", ".join(sorted("%s (%s)" % (a, b) for a, b in seen)))


BSRC = ["d_bounds.cpp"] + ["src/%s.cpp" % n for n in (
    "boundary", "hydro/face_reconstruction", "boundary_distribute", "broadcast", "initialization_interface", "utils/param", "mesh/range", "mesh/grid", "mesh/grid_type", "mesh/geometry", "mesh/geometry_factory", "gravity/gravity",
    "moving_grid/moving_grid", "user_step/user_step", "analysis/integration", "analysis/internal_energy")]
PARTS = ["b_mesh", "b_regular", "b_fields", "b_gravity", "b_update", "b_boundary", "b_exchange", "b_shift"]


def inside(arg):
    """one group of operators in one configuration, in a process of its own"""
    cfg, fns, extra, tier = arg
    check.JOBS = 1
    c = Check("P03", tier)
    err = None
    try:
        p = c.program(BSRC, cfg, extra)
        for f in fns:
            b = []

            def setup(ev, st):
                b.append(bounds.Bounds(ev))
                ev.hooks["may_diverge"] = True

            ev = c.eval_fn(p, f, setup)
            c.need(b[0].decided + len(ev.oblig) > 4, "%s: no access found" % f)
            c.count("obligations", b[0].decided)
            c.count("decided by the extents alone", b[0].decided)
            c.discharge(ev, "%s [%s]" % (f, cfg))
    except (BuildError, Vacuous, Unsupported, Undecided) as e:
        err = "%s %s: %s" % (cfg, fns, e)
    finally:
        c.b.close()
    return c.viol, c.undecided, c.counts, c.funcs, c.samples, c.b.units, {(str(cfg), f) for f in fns}, (c.stats.leaves, c.stats.skipped, c.stats.infeasible), err


@prop("P03", "Accesses stay inside the arrays")
def p03(c):
    c.rule("with the arrays of a run allocated as the main program does, each index of each access is at least 0 and below the extent, each part of an array lies inside it, arrays copied to each other have the same sizes")
    todo = [(cfg, fns, ["-DHV_NFX=2"], c.tier) for cfg in [Config(d, g) for d in (3, 2, 1) for g in ("Spherical", "Cartesian")] for fns in ([PARTS[:4], PARTS[4:5], PARTS[5:]])]
    for name in setups.PROBLEMS:
        for cfg in setups.configs(c, name):
            todo.append((cfg, ["b_setup"], ["-DHV_NFX=%d" % setups.PROBLEMS[name][0]] + (["-DHV_BC"] if name in ("eq_hydro_sphe", "stratified_atm") else []), c.tier))
    gather(c, inside, todo)
