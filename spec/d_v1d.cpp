// The problem that starts from a radial profile in a file: profile, mesh, criterion of the grid shift.
#include <array>
#include <string>
#include <mpi.h>
#include <inih/INIReader.hpp>
#include <config.yaml.hpp>
#include <grid.hpp>
#include <hdf5.h>
#include <initialization_interface.hpp>
#include <io.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>
#include <setup.hpp>
#include <units.hpp>
#include "any.hpp"
#include "world.hpp"
#ifndef HV_NFX
#define HV_NFX 2
#endif
using namespace hclpp;
using namespace world;
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
struct World
{
    Grid& g;
    Param& param;
    INIReader const& ini;
    Box bx;
    Range r;
    Cell c;
    int glob[3];
    World()
        : g(*static_cast<Grid*>(hv_obj("grid")))
        , param(*static_cast<Param*>(hv_obj("param")))
        , ini(*static_cast<INIReader const*>(hv_obj("ini")))
        , bx(box(2, 0))
        , r(range(bx))
    {
        allocate(g, bx, r);
        param.nfx = HV_NFX;
        static char const* const nn[] = {"glob0", "glob1", "glob2"};
        static char const* const rr[] = {"rank0", "rank1", "rank2"};
        static char const* const dd[] = {"dims0", "dims1", "dims2"};
        for (int d = 0; d < 3; ++d) {
            g.Nx_glob_ng[d] = glob[d] = (int)isym_ge(nn[d], 1);
            hv_fact(glob[d] - g.range.Corner_max[d]);
            g.mpi_rank_cart[d] = (int)isym_ge(rr[d], 0);
            g.mpi_dims_cart[d] = (int)isym_ge(dd[d], 1);
            hv_fact(g.mpi_dims_cart[d] - 1 - g.mpi_rank_cart[d]);
        }
    }
    void choose()
    {
        c = cell(bx);
        hv_note("cell", (long)c.x[0], (long)c.x[1], (long)c.x[2]);
        for (int d = 0; d < 3; ++d) {
            static char const* const mm[] = {"m0", "m1", "m2"};
            long const m = isym_ge(mm[d], 0);
            hv_fact(glob[d] + 2 * g.Nghost[d] - m);
            hv_note("node", (long)d, m);
            hv_note("size", (long)bx.n[d], (long)(c.x[d] - bx.lo[d]), (long)(g.range.Corner_min[d] + c.x[d] - bx.lo[d]), (long)glob[d], (long)g.Nghost[d]);
        }
        hv_note("comm", g.comm_cart);
    }
};
template <class V>
void old(V const& v, char const* n)
{
    Kokkos::deep_copy(v, hv_view<V>(n));
}
} // namespace
extern "C" {
void description() { hv_note("description", io_config); }
void profile()
{
    World w;
    w.choose();
    int const* const N = w.g.Nx_local_wg.data();
    KV_double_3d const rho("rho", N[0], N[1], N[2]);
    KV_double_3d const P("P", N[0], N[1], N[2]);
    KV_double_4d const u("u", N[0], N[1], N[2], ndim);
    KV_double_4d const fx("fx", N[0], N[1], N[2], HV_NFX);
    old(rho, "old rho");
    old(P, "old P");
    old(u, "old u");
    old(fx, "old fx");
    write_pdi_init(w.g, w.param);
    ParamSetup const p(w.ini);
    EOS const& eos = *static_cast<EOS const*>(hv_obj("eos"));
    InitializationSetup<AnyGravity> const s(eos, p, AnyGravity {});
    IInitializationProblem const& problem = s;
    problem.execute(w.r, w.g, rho, u, P, fx);
    hv_note("value", "rho", -1L, at(rho, w.c));
    hv_note("value", "P", -1L, at(P, w.c));
    for (int d = 0; d < ndim; ++d) {
        hv_note("value", "u", (long)d, at(u, w.c, d));
    }
    for (int q = 0; q < HV_NFX; ++q) {
        hv_note("value", "fx", (long)q, at(fx, w.c, q));
    }
    hv_true("the profile is read", true);
}
void mesh()
{
    World w;
    w.choose();
    KVH_double_1d const x0("x0", w.glob[0] + (2 * w.g.Nghost[0]) + 1);
    KVH_double_1d const x1("x1", w.glob[1] + (2 * w.g.Nghost[1]) + 1);
    KVH_double_1d const x2("x2", w.glob[2] + (2 * w.g.Nghost[2]) + 1);
    Param& p = w.param;
    p.x1min = hv_sym("x1min");
    p.x1max = hv_sym("x1max");
    p.x2min = hv_sym("x2min");
    p.x2max = hv_sym("x2max");
    write_pdi_init(w.g, w.param);
    GridSetup const s(w.param);
    IGridType const& grid_type = s;
    grid_type.execute(w.g.Nghost, w.g.Nx_glob_ng, x0, x1, x2);
    int const m0 = (int)hv_isym("m0");
    int const m1 = (int)hv_isym("m1");
    int const m2 = (int)hv_isym("m2");
    hv_note("value", "x", 0L, x0(m0));
    hv_eq("regular mesh in the second direction", x1(m1), p.x1min + (m1 - w.g.Nghost[1]) * ((p.x1max - p.x1min) / w.glob[1]));
    hv_eq("regular mesh in the third direction", x2(m2), p.x2min + (m2 - w.g.Nghost[2]) * ((p.x2max - p.x2min) / w.glob[2]));
}
void shift()
{
    World w;
    Grid const& g = w.g;
    auto const rho = hv_view<KV_cdouble_3d>("rho");
    auto const E = hv_view<KV_cdouble_3d>("E");
    auto const rhou = hv_view<KV_cdouble_4d>("rhou");
    auto const fx = hv_view<KV_cdouble_4d>("fx");
    double const limit = w.ini.GetReal("problem", "vmax_shift", 0.) * units::velocity;
    int const n = (int)w.ini.GetInteger("problem", "cell_shift", 0);
    int root = -1;
    std::array<int, 3> const last {g.mpi_dims_cart[0] - 1, 0, 0};
    MPI_Cart_rank(g.comm_cart, last.data(), &root);
    bool bad = w.bx.n[0] < n;
    MPI_Bcast(&bad, 1, MPI_CXX_BOOL, root, g.comm_cart);
    hv_expect_throw(bad);
    if (bad) {
        UserShiftCriterion const s {ParamSetup(w.ini)};
        IShiftCriterion const& c = s;
        c.execute(w.r, g, rho, rhou, E, fx);
        return;
    }
    UserShiftCriterion const s {ParamSetup(w.ini)};
    IShiftCriterion const& c = s;
    bool const res = c.execute(w.r, g, rho, rhou, E, fx);
    double v = 0;
    if (g.mpi_rank_cart[0] == g.mpi_dims_cart[0] - 1) {
        Kokkos::parallel_reduce(
                "rule",
                Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({w.bx.n[0] - n, w.bx.lo[1], w.bx.lo[2]}, {w.bx.hi[0], w.bx.hi[1], w.bx.hi[2]}),
                KOKKOS_LAMBDA(int i, int j, int k, double& m) {
                    double const a = rhou(i, j, k, 0) / rho(i, j, k);
                    m = a > m ? a : m;
                },
                Kokkos::Max<double>(v));
    }
    MPI_Allreduce(MPI_IN_PLACE, &v, 1, MPI_DOUBLE, MPI_MAX, g.comm_cart);
    hv_eqb("the grid is shifted exactly when the gas at the outer edge is as fast as the limit", limit > 0 && res, limit > 0 && v >= limit);
}
}
