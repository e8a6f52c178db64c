"""Parameters, input file, small utilities."""
from vf import expr as X
from vf.check import Config
from vf.expr import TRUE

from . import prop

IT = "sc uc s us i u l ul ll ull".split()


@prop("C05", "Checked integer conversion")
def c05(c):
    c.rule("for each of the 100 pairs of integer types and every source value: an exception exactly when the value is not representable in the target type, otherwise the value is unchanged (two's complement, exact width)")
    c.run(["d_intcast.cpp"], ["ic_%s_%s" % (r, t) for r in IT for t in IT], [Config(1)])


@prop("C01", "Run parameters mean what the input file says")
def c01(c):
    c.rule("each member of the parameter set equals the reader's answer for its documented section, key, type and default, for an arbitrary reader; copies, moves and assignments preserve every member")
    c.run(["d_param.cpp", "src/utils/param.cpp"], ["param_ctor", "param_copy", "param_move", "param_assign"], [Config(1)])


@prop("C02", "Values of the input file are found and converted faithfully")
def c02(c):
    c.rule("for an arbitrary reader state, section, name and default: a lookup yields the stored value of lower(section=name) or the default; a number is the type's standard conversion of the whole stored value (hexadecimal with prefix 0x), out-of-range or unparsable values raise, empty or absent ones give the default; booleans accept exactly the eight documented words in any case; a repeated key appends a line; a file that cannot be opened or parsed is an error")
    fns = ["ini_get", "ini_open"] + ["ini_%s_%s" % (k, p) for k in "int uint long ulong llong ullong float double bool entry".split() for p in ("present", "absent")]
    c.run(["d_inireader.cpp", "vendor/inih/src/INIReader.cpp"], fns, [Config(1)])


@prop("U01", "Physical constants and units")
def u01(c):
    c.rule("every named constant and unit, as the compiler evaluates it, lies within the stated relative distance of its reference value in a coherent SI system")
    c.run(["d_units.cpp"], ["units_constants", "units_cgs", "units_si"], [Config(1)])


@prop("L01", "MPI library lifetime")
def l01(c):
    c.rule("on every path of a scope holding the guard, MPI_Init receives the program's own arguments before the scope's body, MPI_Finalize comes after it, each exactly once; the guard cannot be copied or moved")
    p = c.program(["d_guard.cpp", "src/mpi_scope_guard.cpp"], Config(1))
    for fn in ("guard_args", "guard_plain", "guard_early"):
        ev = c.eval_fn(p, fn)
        seq = [e for e in ev.events if e.name in ("MPI_Init", "MPI_Init_thread", "MPI_Finalize", "MPI_Abort", "note")]
        names = [e.args[0] if e.name == "note" else e.name for e in seq]
        want = ["arguments", "MPI_Init", "body", "MPI_Finalize"] + ([] if fn == "guard_early" else ["after"])
        got = ["MPI_Init" if n == "MPI_Init_thread" else n for n in names]
        c.count("obligations", 2)
        c.count("MPI calls", sum(n.startswith("MPI") for n in got))
        where = "; ".join(e.where for e in seq if e.name.startswith("MPI")) or "src/mpi_scope_guard.cpp"
        if got != want:
            c.violation("%s: sequence of calls" % fn, where, "expected %s, found %s" % (want, got))
            continue
        for e in seq:
            if e.g is not TRUE:
                c.violation("%s: %s is conditional" % (fn, e.name), e.where, "guard %s" % X.showb(e.g))
        a, i = seq[0], seq[1]
        if list(a.args[1:]) != list(i.args[:2]):
            c.violation("%s: MPI_Init receives other arguments" % fn, i.where, "%r instead of %r" % (i.args[:2], a.args[1:]))
    c.run(["d_guard.cpp", "src/mpi_scope_guard.cpp"], ["guard_type"], [Config(1)])


@prop("M06", "Broadcasts and direction helpers")
def m06(c):
    c.rule("after a broadcast every cell of the range holds the scalar (or the column value of its radial index, ghost layers removed) for every component, and every other cell is untouched; the direction helpers shift exactly the requested index by one")
    c.run(["d_broadcast.cpp", "src/broadcast.cpp", "src/mesh/range.cpp"], ["bc_scalar3", "bc_scalar4", "bc_column3", "bc_column4", "dir_helpers"], [Config(1), Config(2), Config(3)])
