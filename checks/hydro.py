"""Hydrodynamics: states, thermodynamics, fluxes, reconstruction, finite-volume update."""
from vf import expr as X
from vf.check import Config, Ob
from vf.eval import E, atom_of, showterm
from vf.expr import FALSE, TRUE, band, bnot, bor

from . import prop

RANGE = "src/mesh/range.cpp"
D123 = [Config(1), Config(2), Config(3)]
SPH = [Config(1, "Spherical"), Config(2, "Spherical"), Config(3, "Spherical")]


@prop("H01", "Primitive and conservative descriptions of the gas are the same state")
def h01(c):
    c.rule("each conserved/primitive/flux component produced by the code equals the Euler definition, pointwise and in the array kernels for an arbitrary cell of an arbitrary range; conversions are mutually inverse")
    c.run(["d_conv.cpp", RANGE], ["conv_point", "conv_flux", "conv_arrays"], D123)


EOSSRC = ["d_eos.cpp", "src/thermodynamics/perfect_gas.cpp", "src/thermodynamics/rad_gas.cpp"]


@prop("H02", "Ideal-gas equation of state")
def h02(c):
    c.rule("every closure relation equals its ideal-gas definition as a real function of its arguments and of gamma, mu")
    c.run(EOSSRC, ["pg_props"], [Config(1)])


@prop("H03", "Gas plus radiation equation of state")
def h03(c):
    c.rule("pressure and energy density of gas+radiation; the temperature solvers are Newton iterations on exactly those relations and stop only once the correction is below 1e-6; composite relations and sound speed follow")
    c.run(EOSSRC, ["rg_props", "rg_composite"], [Config(1)])
    p = c.program(EOSSRC, Config(1))
    for fn, ref in (("rg_newton_p", "rg_resid_p"), ("rg_newton_e", "rg_resid_e")):
        newton(c, p, fn, ref)


def newton(c, p, fn, ref):
    ev = c.eval_fn(p, fn, lambda ev, st: ev.hooks.update(havoc=True))
    if not ev.loops:
        c.violation("%s: no iteration takes place" % fn, "", "returned: " + X.show(ev.ret, 8))
        c.count("obligations")
        return
    c.need(len(ev.loops) == 1, "%s: expected one iteration loop, found %d" % (fn, len(ev.loops)))
    L = ev.loops[0]
    # residual and derivative as functions of T
    rv = c.eval_fn(p, ref)
    r = rv.ret
    f, df = r[0], r[1]
    T = X.sym("T")
    car = [(k, i, n, s) for k, (i, n, s) in L.rec.items() if isinstance(s, E) and s.k == "f" and isinstance(n, E)]
    c.count("loop-carried quantities", len(car))

    def newtonstep(s):
        m = {T.id: s}
        return X.fsub(s, X.fdiv(X.subst(f, m), X.subst(df, m)))

    ev.oblig = []
    # the value returned when the loop is left other than by exhaustion
    found = None
    for k, i, n, s in car:
        probe = Ob("probe", n, newtonstep(s), TRUE, "")
        if c.holds(ev, probe):
            found = (k, i, n, s)
            break
    if found is None:
        c.violation("%s: iteration is not the Newton step of the equation of state" % fn, L.where,
                    "no loop-carried quantity T is updated to T - f(T)/f'(T); updates: " + "; ".join("%s -> %s" % (X.show(s), X.show(n, 8)) for k, i, n, s in car))
        c.count("obligations")
        return
    k, i, n, s = found
    delta = X.fsub(n, s)
    absd = X.ite(X.fcmp("olt", delta, X.ZERO), X.fneg(delta), delta)
    tol = X.fconst(1e-6)
    conv = X.fcmp("ole", absd, tol)
    # the previous correction, where it is carried to the next iteration and tested there
    tested = {x.id for h, g in L.exits for x in X.atoms(g)}
    last = FALSE
    for k2, i2, n2, s2 in car:
        if s2.id in tested and s2 is not s and c.holds(ev, Ob("probe", n2, delta, TRUE, "")):
            a2 = X.ite(X.fcmp("olt", s2, X.ZERO), X.fneg(s2), s2)
            last = bor(last, X.fcmp("ole", a2, tol))
            a2 = X.ite(X.fcmp("olt", i2, X.ZERO), X.fneg(i2), i2)
            ev.oblig.append(Ob(fn + ": the first iteration takes place", X.fcmp("ole", a2, tol), FALSE, TRUE, L.where, "bool"))
    # the number of iterations is exhausted
    ints = {atom_of(s).id for i, n, s in L.rec.values() if isinstance(s, E) and s.k == "i"}
    over = FALSE
    D = FALSE
    nanp = FALSE
    for hdr, g in L.exits:
        D = bor(D, g)
        for v in X.bsupport(g):
            d = X.VARS[v]
            if d[0] == "P":
                nanp = bor(nanp, X.bvar(d))
            if d[0] in ("IL", "IE"):
                co = [k for mono, k in d[1].a if len(mono) == 1 and mono[0].id in ints]
                if d[0] == "IE" and co or co and co[0] < 0:
                    over = bor(over, X.bvar(d))
                elif co:
                    over = bor(over, bnot(X.bvar(d)))
    for hdr, g in L.exits:
        ev.oblig.append(Ob(fn + ": the iteration stops only when the correction is within tolerance", bor(bor(conv, last), bor(nanp, over)), TRUE, g, L.where, "bool"))
    c.need(any(band(g, bnot(over)) is not FALSE for h, g in L.exits), fn + ": no convergence exit")
    # returned value: the last iterate
    def walk(v, g):
        if isinstance(v, E) and v.op == "ite":
            walk(v.a[1], band(g, v.a[0]))
            walk(v.a[2], band(g, bnot(v.a[0])))
        elif v is s:
            # left before the iterate was updated again
            ev.oblig.append(Ob(fn + ": returns the last iterate", bor(over, last), TRUE, g, L.where, "bool"))
        elif g is not FALSE:
            ev.oblig.append(Ob(fn + ": returns the last iterate", v, n, g, L.where))
    walk(ev.ret, D)
    # starting point is positive
    ev.oblig.append(Ob(fn + ": starts from a positive temperature", X.fcmp("ogt", i, X.ZERO), TRUE, TRUE, L.where, "bool"))
    c.discharge(ev)


@prop("H04", "Unphysical gas parameters and states are rejected")
def h04(c):
    c.rule("construction fails exactly when gamma is not finite or <= 1 or the molecular weight is not finite or <= 0; validity predicates are exactly finite-and-positive density and pressure (IEEE comparisons, NaN and infinities included)")
    c.run(EOSSRC, ["pg_ctor", "rg_ctor", "eos_valid"], [Config(1)])


RS = ["%s_" + k for k in ("formula", "cons", "sym")]


def riemann(n):
    return [k % n for k in RS]


@prop("H05", "HLL flux")
def h05(c):
    c.rule("flux equals the HLL formula for every pair of states, is consistent with the physical flux and mirror symmetric")
    c.run(["d_riemann.cpp"], riemann("hll"), D123)


@prop("H06", "HLLC flux")
def h06(c):
    c.rule("flux equals the HLLC formula for every pair of states, is consistent with the physical flux and mirror symmetric")
    c.run(["d_riemann.cpp"], riemann("hllc"), D123)


@prop("H07", "Low-Mach pressure-splitting flux")
def h07(c):
    c.rule("flux equals the splitting formula for every pair of states, is consistent with the physical flux and mirror symmetric")
    c.run(["d_riemann.cpp"], riemann("split"), D123)


LIMSRC = ["d_limiter.cpp", RANGE, "src/hydro/face_reconstruction.cpp"]


@prop("H08", "Slope limiters")
def h08(c):
    c.rule("limiter values for all pairs of real slopes")
    c.run(LIMSRC, ["lim_minmod", "lim_vanleer", "lim_vanalbada", "lim_constant"], [Config(1)])


@prop("H09", "Piecewise-linear face reconstruction")
def h09(c):
    c.rule("both face values of an arbitrary cell along every direction equal centre value +- half width times limited slope of the centre distances")
    c.run(LIMSRC, ["recon_linear"], D123)


GOD = ["d_godunov.cpp", RANGE]


HAN = ["d_hancock.cpp", RANGE, "src/hydro/face_reconstruction.cpp"]


@prop("H10", "Second-order half step and full reconstruction pipeline")
def h10(c):
    c.rule("face states of an arbitrary cell after the half step = face state - dt/(2 dv) * sum of outgoing physical fluxes + dt/2 * sources of the cell, all components from the same pre-step states; the full pipeline = linear reconstruction of every primitive variable and scalar, conversion, half step")
    c.run(HAN, ["hancock_step", "muscl_pipeline"], D123 + SPH)


@prop("H11", "Discrete conservation")
def h11(c):
    c.rule("the update of every conserved density in an arbitrary cell of an arbitrary range equals old value + dt/dv * (sum over faces of area * one flux per face) + sources; the flux of a face is a function of its two adjacent states only, hence shared by both cells")
    c.run(GOD, ["god_mass", "god_momentum", "god_energy"], D123 + SPH)


@prop("H12", "Gravity and curvature source terms")
def h12(c):
    c.rule("momentum gains dt*rho*g (and the geometric terms in spherical coordinates), energy gains dt times the work of gravity with the matching velocity, in the update and in the predictor, for an arbitrary cell")
    c.run(GOD, ["god_momentum", "god_energy"], SPH + D123)
    c.run(HAN, ["hancock_step"], SPH + D123)


@prop("H13", "Passive scalars")
def h13(c):
    c.rule("scalar update = upwind mass-weighted flux form, clamped to [0,1], for an arbitrary scalar of an arbitrary cell")
    c.run(GOD, ["god_scalar"], D123 + SPH[:1] + (SPH[1:] if c.tier == "thorough" else []))


RED = ["d_timestep.cpp", RANGE, "src/analysis/integration.cpp", "src/analysis/internal_energy.cpp"]


@prop("H14", "CFL time step")
def h14(c):
    c.rule("step = 1 / max over every cell of the range and over every process of sum_d (|u_d|+c)/width_d, with metric widths in spherical coordinates")
    c.run(RED, ["dt_cfl"], D123 + SPH)


@prop("A01", "Global integrals and derived fields")
def a01(c):
    c.rule("integral = sum over every cell of the range and every process of value*volume; temperature field equals the equation of state in an arbitrary cell")
    c.run(RED, ["sum_integral", "temp_field"], D123)


@prop("H16", "Solver and limiter selection by name")
def h16(c):
    c.rule("every documented name selects the limiter of that name; any other string is rejected by an exception")
    c.run(LIMSRC, ["recon_factory", "recon_unknown"], [Config(1)])
