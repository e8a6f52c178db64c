"""Gravity fields, energy guard, moving grid."""
from vf.check import Config

from . import prop

DIMS = [Config(d) for d in (1, 2, 3)]
MESH = ["src/mesh/%s.cpp" % n for n in ("grid", "geometry", "geometry_factory", "range")]
GSRC = ["d_gravity.cpp", "src/gravity/gravity.cpp"] + MESH
MSRC = ["d_moving.cpp", "src/moving_grid/moving_grid.cpp"] + MESH
CONF = DIMS + [Config(d, "Spherical") for d in (1, 2, 3)]


@prop("G01", "Uniform and point-mass gravity")
def g01(c):
    c.rule("acceleration at an arbitrary cell, ghosts included: the configured vector; or -G M / r^2 at the cell centre along x0 and 0 along the others")
    c.run(GSRC, ["uniform_gravity", "point_gravity"], DIMS)


@prop("G02", "Gravity of the enclosed mass")
def g02(c):
    c.rule("with M(i) = |g(i)| r(i)^2 / G: M is the central mass in inner ghosts; M(first) adds the inner half shell; M(i+1) - M(i) is the mass of the two half shells between consecutive centres, with densities averaged over all processes at this radius; more than one process along x0 is an error")
    c.run(GSRC, ["internal_gravity"], CONF)


@prop("M05", "Moving grid")
def m05(c):
    c.rule("after a shift: every field at cell i is the former field at i+1 (ghosts included), node i is the former node i+1, the last width continues the progression, the block's coordinates are those of the shifted nodes on host and device")
    c.run(MSRC, ["shift_fields"], DIMS)


@prop("H15", "Internal energy of cold flows")
def h15(c):
    c.rule("with e < eps*ekin before the step: E = e + a*(e_new - e) + (1-a)*dt*(-P div u - div(e u)) + ekin_new, a = (e/(eps ekin))^2 or 0 below eps/10, face velocities averaged from the reconstructed states, e upwinded; every other cell keeps its energy")
    c.run(["d_pfix.cpp"] + MESH, ["pfix"], DIMS)


@prop("A02", "Detection of invalid internal energy")
def a02(c):
    from .hydro import RED

    c.rule("result = min over every cell of the range and every process of E - rho u^2/2; when the energies are undefined (NaN) the result is undefined or negative")
    c.run(RED, ["min_energy", "undefined_energy"], DIMS)
