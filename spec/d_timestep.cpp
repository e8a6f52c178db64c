// Global time step, global reductions.
#include <cmath>
#include <mpi.h>
#include <geom.hpp>
#include <integration.hpp>
#include <internal_energy.hpp>
#include <temperature.hpp>
#include <time_step.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3, Kokkos::Iterate::Left, Kokkos::Iterate::Left>> all(Box const& b)
{
    Kokkos::Array<int, 3> lo;
    Kokkos::Array<int, 3> hi;
    for (int d = 0; d < 3; ++d) {
        lo[d] = b.lo[d];
        hi[d] = b.hi[d];
    }
    return {lo, hi};
}
Box anybox()
{
    int const gh = (int)isym_ge("gh", 0);
    hv_fact(2 - gh);
    return box(2, gh);
}
} // namespace
extern "C" {
void dt_cfl()
{
    Box const b = anybox();
    Range const r = range(b);
    KV_double_3d rho = hv_view<KV_double_3d>("rho"), P = hv_view<KV_double_3d>("P");
    KV_double_4d u = hv_view<KV_double_4d>("u");
    double const dt = time_step(r, any::Eos {}, grid(), rho, u, P);
    Grid const& g = grid();
    auto const h0 = g.dx0, h1 = g.dx1, h2 = g.dx2, r0 = g.x0_center, t0 = g.x1_center;
    double worst = 0;
    Kokkos::parallel_reduce(
            "rule",
            all(b),
            KOKKOS_LAMBDA(int i, int j, int k, double& w) {
                double const c = hv_fn2("pos:sound", rho(i, j, k), P(i, j, k));
                double s = 0;
                for (int d = 0; d < ndim; ++d) {
                    double h = d == 0 ? h0(i) : d == 1 ? h1(j) : h2(k);
                    if (geom == Geometry::Geom_spherical) {
                        h *= d == 0 ? 1 : d == 1 ? r0(i) : r0(i) * std::sin(t0(j));
                    }
                    s += (std::fabs(u(i, j, k, d)) + c) / h;
                }
                w = s > w ? s : w;
            },
            Kokkos::Max<double>(worst));
    MPI_Allreduce(MPI_IN_PLACE, &worst, 1, MPI_DOUBLE, MPI_MAX, g.comm_cart);
    hv_eq("time step is the inverse of the largest crossing rate over all cells of all processes", dt, 1 / worst);
}
void sum_integral()
{
    Box const b = anybox();
    Range const r = range(b);
    KV_double_3d var = hv_view<KV_double_3d>("var");
    double const s = integrate(r, grid(), var);
    Grid const& g = grid();
    auto const vol = g.dv;
    double t = 0;
    Kokkos::parallel_reduce(
            "rule",
            all(b), KOKKOS_LAMBDA(int i, int j, int k, double& w) { w += var(i, j, k) * vol(i, j, k); }, Kokkos::Sum<double>(t));
    MPI_Allreduce(MPI_IN_PLACE, &t, 1, MPI_DOUBLE, MPI_SUM, g.comm_cart);
    hv_eq("integral is the sum of value times volume over all cells of all processes", s, t);
}
void min_energy()
{
    Box const b = anybox();
    Range const r = range(b);
    KV_double_3d rho = hv_view<KV_double_3d>("rho"), E = hv_view<KV_double_3d>("E");
    KV_double_4d rhou = hv_view<KV_double_4d>("rhou");
    double const s = minimum_internal_energy(r, grid(), rho, rhou, E);
    double t = 0;
    Kokkos::parallel_reduce(
            "rule",
            all(b),
            KOKKOS_LAMBDA(int i, int j, int k, double& w) {
                double n = 0;
                for (int d = 0; d < ndim; ++d) {
                    n += rhou(i, j, k, d) * rhou(i, j, k, d);
                }
                double const e = E(i, j, k) - n / (2 * rho(i, j, k));
                w = e < w ? e : w;
            },
            Kokkos::Min<double>(t));
    MPI_Allreduce(MPI_IN_PLACE, &t, 1, MPI_DOUBLE, MPI_MIN, grid().comm_cart);
    hv_eq("smallest internal energy over all cells of all processes", s, t);
}
void undefined_energy()
{
    hv_ieee(true);
    Box const b = anybox();
    Range const r = range(b);
    KV_double_3d rho = hv_view<KV_double_3d>("rho");
    KV_double_3d const E("E", b.hi[0], b.hi[1], b.hi[2]);
    KV_double_4d rhou = hv_view<KV_double_4d>("rhou");
    Kokkos::deep_copy(E, Kokkos::Experimental::quiet_NaN_v<double>);
    double const s = minimum_internal_energy(r, grid(), rho, rhou, E);
    hv_true("undefined energies are not lost", Kokkos::isnan(s) || s < 0);
}
void temp_field()
{
    Box const b = anybox();
    Range const r = range(b);
    Cell const c = cell(b);
    KV_double_3d rho = hv_view<KV_double_3d>("rho"), P = hv_view<KV_double_3d>("P"), T = hv_view<KV_double_3d>("T");
    temperature(r, any::Eos {}, rho, P, T);
    hv_eq("temperature field", at(T, c), hv_fn2("tempP", at(rho, c), at(P, c)));
}
}
