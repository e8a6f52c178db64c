// Moving grid: fields and nodes shifted by one cell; energy guard.
#include <array>
#include <grid.hpp>
#include <internal_energy.hpp>
#include <kokkos_shortcut.hpp>
#include <moving_grid.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
struct Fields
{
    KV_double_3d rho;
    KV_double_4d rhou;
    KV_double_3d E;
    KV_double_4d fx;
    Fields(std::string const& s, int n0, int n1, int n2, int nfx)
        : rho(s + "rho", n0, n1, n2), rhou(s + "rhou", n0, n1, n2, ndim), E(s + "E", n0, n1, n2), fx(s + "fx", n0, n1, n2, nfx)
    {
    }
};
} // namespace
extern "C" {
void shift_fields()
{
    static char const* const ii[] = {"i", "j", "k"};
    int const n0 = (int)isym_ge("N0", 4);
    int const n1 = (int)isym_ge("N1", 1);
    int const n2 = (int)isym_ge("N2", 1);
    int const nfx = (int)isym_ge("nfx", 1);
    Fields const a("old", n0, n1, n2, nfx);
    Fields const b("new", n0, n1, n2, nfx);
    auto const rho0 = hv_view<KV_double_3d>("rho0");
    auto const E0 = hv_view<KV_double_3d>("E0");
    auto const u0 = hv_view<KV_double_4d>("u0");
    auto const f0 = hv_view<KV_double_4d>("f0");
    auto const rho1 = hv_view<KV_double_3d>("rho1");
    Kokkos::deep_copy(a.rho, rho0);
    Kokkos::deep_copy(a.E, E0);
    Kokkos::deep_copy(a.rhou, u0);
    Kokkos::deep_copy(a.fx, f0);
    int const n[3] = {n0, n1, n2};
    Cell c;
    for (int d = 0; d < 3; ++d) {
        c.x[d] = (int)isym_ge(ii[d], 0);
        hv_fact(n[d] - 1 - (d == 0 ? 1 : 0) - c.x[d]);
    }
    int const q = (int)isym_ge("q", 0);
    hv_fact(nfx - 1 - q);
    KDV_double_1d const x0("x0", n0 + 1);
    KDV_double_1d const x1("x1", n1 + 1);
    KDV_double_1d const x2("x2", n2 + 1);
    auto const y0 = hv_view<KV_double_1d>("y0");
    auto const y1 = hv_view<KV_double_1d>("y1");
    auto const y2 = hv_view<KV_double_1d>("y2");
    Kokkos::deep_copy(x0(device, discard_write), y0);
    Kokkos::deep_copy(x1(device, discard_write), y1);
    Kokkos::deep_copy(x2(device, discard_write), y2);
    Grid& g = const_cast<Grid&>(grid());
    Box bx = box(2, 2);
    allocate(g, bx, range(bx));
    int const l = (int)isym_ge("l", 0);
    hv_fact(g.Nx_local_wg[0] - l);
    int const lc = (int)isym_ge("lc", 0);
    hv_fact(g.Nx_local_wg[0] - 1 - lc);
    int const o = g.range.Corner_min[0];
    hv_fact(n0 - g.range.Corner_max[0] - 4);
    shift_grid(a.rho, a.rhou, a.E, a.fx, b.rho, b.rhou, b.E, b.fx, x0, x1, x2, g);
    Cell const p = shift(c, 0, 1);
    hv_eq("density", at(b.rho, c), at(rho0, p));
    hv_eq("energy", at(b.E, c), at(E0, p));
    for (int d = 0; d < ndim; ++d) {
        hv_eq("momentum", at(b.rhou, c, d), at(u0, p, d));
    }
    hv_eq("passive scalars", at(b.fx, c, q), at(f0, p, q));
    hv_eq("the fields read are unchanged", at(a.rho, c), at(rho0, c));
    auto const z0 = x0(host, read_only);
    auto const w0 = x0(device, read_only);
    hv_eq("nodes move by one cell", z0(c.x[0]), y0(c.x[0] + 1));
    hv_eq("nodes move by one cell (last but one)", z0(n0 - 1), y0(n0));
    double const r = (y0(n0) - y0(n0 - 1)) / (y0(n0 - 1) - y0(n0 - 2));
    hv_eq("the last width follows the progression", z0(n0), y0(n0) + (y0(n0) - y0(n0 - 1)) * r);
    hv_eq("same nodes on the device", w0(c.x[0]), y0(c.x[0] + 1));
    hv_eq("same nodes on the device (last)", w0(n0), z0(n0));
    hv_eq("the local nodes are those of the shifted grid", g.x0(l), w0(o + l));
    hv_eq("the local centres are those of the shifted grid", g.x0_center(lc), (w0(o + lc) + w0(o + lc + 1)) / 2);
    hv_eq("the local widths are those of the shifted grid", g.dx0(lc), w0(o + lc + 1) - w0(o + lc));
    hv_eq("other nodes do not move", x1(host, read_only)(c.x[1]), y1(c.x[1]));
    hv_eq("other nodes do not move", x2(host, read_only)(c.x[2]), y2(c.x[2]));
}
}

