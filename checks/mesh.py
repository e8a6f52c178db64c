"""Geometry, coordinates, ranges, decomposition over processes."""
from vf import expr as X
from vf.check import Config
from vf.expr import TRUE

from . import prop

SRC = ["d_mesh.cpp"] + ["src/mesh/%s.cpp" % n for n in ("geometry", "geometry_factory", "range", "grid", "grid_type")]
DIMS = [Config(d) for d in (1, 2, 3)]
GEOMS = [Config(d, g) for g in ("Cartesian", "Spherical") for d in (1, 2, 3)]


@prop("M01", "Decomposition of the domain over processes")
def m01(c):
    c.rule("for an arbitrary process grid: the block of the next process starts where this one ends, the first starts at 0, the last ends at the global size, sizes differ by at most one; border flags mark exactly the first and last process; arrays have the block's size; the process grid is created periodic with the dimensions chosen by MPI from the world size; every communicator created is released once")
    c.run(SRC, ["blocks_adjacent", "blocks_first", "blocks_last", "blocks_any"], DIMS)
    for cfg in DIMS:
        p = c.program(SRC, cfg)
        ev = c.eval_fn(p, "grid_life")
        es = [e for e in ev.events if e.name.startswith("MPI_")]
        c.count("MPI calls", len(es))

        def bad(e, what, detail):
            c.violation("%s [%s]" % (what, cfg), e.where if e else "src/mesh/grid.cpp", detail)

        def one(name):
            r = [e for e in es if e.name == name]
            c.count("obligations")
            if len(r) != 1 or r[0].g is not TRUE:
                bad(r[0] if r else None, "%s is called exactly once" % name, "%d calls" % len(r))
                return None
            return r[0]

        d = one("MPI_Dims_create")
        if d:
            want = tuple(X.sym("D%d" % k, "i") for k in range(cfg.dim))
            c.count("obligations", 3)
            if d.args[0] is not X.sym("size(world)", "i"):
                bad(d, "the number of processes distributed is the size of the world", X.show(d.args[0]))
            if d.args[1] != cfg.dim:
                bad(d, "processes are distributed over the active directions", "%r" % (d.args[1],))
            elif d.args[2] != want:
                bad(d, "the requested process grid is passed on", "%r" % (d.args[2],))
        k = one("MPI_Cart_create")
        if k:
            want = tuple(X.sym("dims%d" % i, "i") if i < cfg.dim else 1 for i in range(3))
            c.count("obligations", 3)
            if "world" not in k.args[0]:
                bad(k, "the process grid contains all processes", k.args[0])
            if k.args[1] != 3 or k.args[2] != want:
                bad(k, "the process grid has the dimensions chosen", "%r" % (k.args[2],))
            if tuple(k.args[3]) != (1, 1, 1):
                bad(k, "the process grid is periodic", "%r" % (k.args[3],))
        s = one("MPI_Cart_sub")
        if s and (s.args[0] != "cart1" or tuple(s.args[1]) != (0, 1, 1)):
            bad(s, "the horizontal communicator groups the processes of one radial position", "%r" % (s.args,))
        freed = sorted(e.args[0] for e in es if e.name == "MPI_Comm_free" and e.g is TRUE)
        made = sorted([e.args[4] for e in es if e.name == "MPI_Cart_create"] + [e.args[2] for e in es if e.name == "MPI_Cart_sub"])
        c.count("obligations")
        if freed != made:
            bad(None, "every communicator created is released once", "created %s, released %s" % (made, freed))


@prop("M02", "Cell volumes and face areas")
def m02(c):
    c.rule("volume and lower-face areas of an arbitrary cell equal the exact measures of the coordinate box (Cartesian; spherical with the missing angles complete)")
    c.run(SRC, ["geometry_measures"], GEOMS)


@prop("M03", "Node coordinates, centres and widths")
def m03(c):
    c.rule("node i of the regular mesh is xmin + (i - ghosts)*(xmax - xmin)/N, so first and last interior nodes are the bounds; the local node i is the global node of the block's corner + i; centres and widths follow, and the metric is that of these nodes")
    c.run(SRC, ["regular_mesh"], DIMS)
    c.run(SRC, ["grid_coordinates"], GEOMS)


@prop("M04", "Ranges of cells and ghost layers")
def m04(c):
    c.rule("a range is rejected exactly when a corner is negative or inverted; extended by g layers it iterates [ghosts-g, ghosts+n+g) along active directions and [0, n) along inactive ones; asking for more layers than exist is rejected")
    c.run(["d_mesh.cpp", "src/mesh/range.cpp", "src/mesh/grid.cpp", "src/mesh/geometry.cpp", "src/mesh/geometry_factory.cpp", "src/mesh/grid_type.cpp"], ["range_construct", "range_members", "range_ghosts"], DIMS)
