// Gravity fields.
#include <dual_view.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <mpi.h>
#include <ndim.hpp>
#include <range.hpp>
#include <units.hpp>
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
int anyidx(char const* n) { return (int)hv_isym(n); }
} // namespace
extern "C" {
void uniform_gravity()
{
    double const a = hv_sym("gx0"), b = hv_sym("gx1"), c = hv_sym("gx2");
    UniformGravity const g = make_uniform_gravity(a, b, c);
    hv_eq("acceleration along x0", g(anyidx("i"), anyidx("j"), anyidx("k"), 0), a);
    hv_eq("acceleration along x1", g(anyidx("i"), anyidx("j"), anyidx("k"), 1), b);
    hv_eq("acceleration along x2", g(anyidx("i"), anyidx("j"), anyidx("k"), 2), c);
    UniformGravity const h(g);
    hv_eq("copies give the same acceleration", h(anyidx("i"), anyidx("j"), anyidx("k"), 1), b);
}
void point_gravity()
{
    Grid& g = const_cast<Grid&>(grid());
    Box const b = box(2, 2);
    allocate(g, b, range(b));
    auto const nodes = hv_view<KV_cdouble_1d>("nodes");
    Kokkos::deep_copy(g.x0_center, nodes);
    Cell const c = cell(b);
    double const m = hv_sym("M");
    PointMassGravity const q = make_point_mass_gravity(m, g);
    double const r = g.x0_center(c.x[0]);
    hv_eq("attraction of a central mass", q(c.x[0], c.x[1], c.x[2], 0), -units::G * m / (r * r));
    hv_eq("no acceleration along x1", q(c.x[0], c.x[1], c.x[2], 1), 0);
    hv_eq("no acceleration along x2", q(c.x[0], c.x[1], c.x[2], 2), 0);
}
void internal_gravity()
{
    Grid& g = const_cast<Grid&>(grid());
    Box const b = box(2, 2);
    allocate(g, b, range(b));
    auto const a0 = hv_view<KV_cdouble_1d>("nodes"), a1 = hv_view<KV_cdouble_1d>("centres");
    auto const a2 = hv_view<KV_cdouble_3d>("volumes");
    auto const rho = hv_view<KV_cdouble_3d>("rho");
    Kokkos::deep_copy(g.x0, a0);
    Kokkos::deep_copy(g.x0_center, a1);
    Kokkos::deep_copy(g.dv, a2);
    double const m = hv_sym("M");
    // one process along x0 only
    hv_expect_throw(g.mpi_dims_cart[0] != 1);
    InternalMassGravity const q = make_internal_mass_gravity(m, g, rho);
    auto const mean = [&](int i) {
        double s = 0;
        double v = 0;
        Kokkos::parallel_reduce(
                "rule",
                Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<2>>({g.Nghost[1], g.Nghost[2]}, {g.Nghost[1] + b.n[1], g.Nghost[2] + b.n[2]}),
                KOKKOS_LAMBDA(int j, int k, double& x, double& y) {
                    x += rho(i, j, k) * a2(i, j, k);
                    y += a2(i, j, k);
                },
                Kokkos::Sum<double>(s), Kokkos::Sum<double>(v));
        MPI_Allreduce(MPI_IN_PLACE, &s, 1, MPI_DOUBLE, MPI_SUM, g.comm_cart_horizontal);
        MPI_Allreduce(MPI_IN_PLACE, &v, 1, MPI_DOUBLE, MPI_SUM, g.comm_cart_horizontal);
        return s / v;
    };
    auto const ball = [](double x) { return 4 * units::pi / 3 * x * x * x; };
    auto const mass = [&](int i) { return -q(i, (int)hv_isym("j"), (int)hv_isym("k"), 0) * a1(i) * a1(i); };
    // below the first cell: the central mass only
    hv_eq("inner ghost cells", mass((int)isym_ge("ghost", 0) * 0), units::G * m);
    hv_eq("inner ghost cells (1)", mass(1), units::G * m);
    // first cell: its inner half shell
    hv_eq("first cell", hv_unscan(mass(2), 2), units::G * (m + (ball(a1(2)) - ball(a0(2))) * mean(2)));
    // every other one: the two half shells between the centres
    int const i = (int)isym_ge("i", 2);
    hv_fact(g.Nx_local_wg[0] - 2 - i);
    hv_eq("mass between consecutive centres", hv_unscan(mass(i + 1), i + 1) - mass(i), units::G * ((ball(a0(i + 1)) - ball(a1(i))) * mean(i) + (ball(a1(i + 1)) - ball(a0(i + 1))) * mean(i + 1)));
    int const c = (int)isym_ge("c", 0);
    hv_eq("no acceleration along x1", q(c, (int)hv_isym("j"), (int)hv_isym("k"), 1), 0);
    hv_eq("no acceleration along x2", q(c, (int)hv_isym("j"), (int)hv_isym("k"), 2), 0);
}
}
