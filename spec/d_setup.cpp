// Initial states of the test problems.  Arrays of the grid are seen through global positions: entry i of a
// block that starts at cell c of the domain is entry c + i - (ghost layers) of the domain.
#include <cmath>
#include <mpi.h>
#include <inih/INIReader.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <initialization_interface.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <units.hpp>
#include <setup.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
struct AnyGravity
{
    int c0 = 0, c1 = 0, c2 = 0;
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)(i + c0), (long)(j + c1), (long)(k + c2), (long)d); }
};
struct World
{
    Grid& g;
    INIReader const& ini;
    Box bx;
    Range r;
    int ng[3];
    int o[3]; // first cell of the block, minus ghost layers
    int c[3];
    int glob[3];
    int nfx;
    AnyGravity gravity;
    KV_double_3d rho, P;
    KV_double_4d u, fx;
    EOS const& eos;
    World(int scalars)
        : g(const_cast<Grid&>(grid()))
        , ini(*static_cast<INIReader const*>(hv_obj("ini")))
        , bx(box((int)isym_ge("ng", 1), 0))
        , r(range(bx))
        , nfx(scalars)
        , eos(*static_cast<EOS const*>(hv_obj("eos")))
    {
        allocate(g, bx, r);
        hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_pres", "pos:TP");
        hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_evol", "pos:TE");
        static char const* const nn[] = {"glob0", "glob1", "glob2"};
        static char const* const rr[] = {"rank0", "rank1", "rank2"};
        static char const* const dd[] = {"dims0", "dims1", "dims2"};
        for (int d = 0; d < 3; ++d) {
            g.Nx_glob_ng[d] = glob[d] = (int)isym_ge(nn[d], 1);
            c[d] = g.range.Corner_min[d];
            hv_fact(glob[d] - g.range.Corner_max[d]);
            ng[d] = g.Nghost[d];
            o[d] = c[d] - ng[d];
            g.mpi_rank_cart[d] = c[d] == 0 ? 0 : (int)isym_ge(rr[d], 1);
            g.mpi_dims_cart[d] = (int)isym_ge(dd[d], 1);
        }
        g.mpi_rank = c[0] == 0 && (ndim < 2 || c[1] == 0) && (ndim < 3 || c[2] == 0) ? 0 : (int)isym_ge("rank", 1);
        gravity.c0 = o[0];
        gravity.c1 = o[1];
        gravity.c2 = o[2];
        line(g.x0, "x0", 0);
        line(g.x1, "x1", 1);
        line(g.x2, "x2", 2);
        line(g.x0_center, "xc0", 0);
        line(g.x1_center, "xc1", 1);
        line(g.x2_center, "xc2", 2);
        line(g.dx0, "dx0", 0);
        line(g.dx1, "dx1", 1);
        line(g.dx2, "dx2", 2);
        auto const v = hv_view<KV_cdouble_3d>("dv");
        auto const gdv = g.dv;
        int const a = o[0], b = o[1], e = o[2];
        Kokkos::parallel_for(
                "rule", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]}),
                KOKKOS_LAMBDA(int i, int j, int k) { gdv(i, j, k) = v(i + a, j + b, k + e); });
        int const* const N = g.Nx_local_wg.data();
        rho = KV_double_3d("rho", N[0], N[1], N[2]);
        P = KV_double_3d("P", N[0], N[1], N[2]);
        u = KV_double_4d("u", N[0], N[1], N[2], ndim);
        fx = KV_double_4d("fx", N[0], N[1], N[2], nfx);
        Kokkos::deep_copy(rho, hv_view<KV_double_3d>("old rho"));
        Kokkos::deep_copy(P, hv_view<KV_double_3d>("old P"));
        Kokkos::deep_copy(u, hv_view<KV_double_4d>("old u"));
        Kokkos::deep_copy(fx, hv_view<KV_double_4d>("old fx"));
    }
    void line(KV_double_1d const& to, char const* n, int d) const
    {
        auto const from = hv_view<KV_cdouble_1d>(n);
        int const a = o[d];
        Kokkos::parallel_for("rule", Kokkos::RangePolicy<>(0, to.extent_int(0)), KOKKOS_LAMBDA(int i) { to(i) = from(i + a); });
    }
    void run() const
    {
        ParamSetup const p(ini);
        InitializationSetup<AnyGravity> const s(eos, p, gravity);
        IInitializationProblem const& problem = s;
        problem.execute(r, g, rho, u, P, fx);
    }
    double real(char const* n, double d = 1, char const* s = "Initialisation") const { return ini.GetReal(s, n, d); }
    // position of a cell in the domain
    double xc(Cell const& q, int d) const { return d == 0 ? g.x0_center(q.x[0]) : d == 1 ? g.x1_center(q.x[1]) : g.x2_center(q.x[2]); }
    double xl(Cell const& q, int d) const { return d == 0 ? g.x0(q.x[0]) : d == 1 ? g.x1(q.x[1]) : g.x2(q.x[2]); }
    double grav(Cell const& q, int d) const { return gravity(q.x[0], q.x[1], q.x[2], d); }
};
struct State
{
    double rho;
    double P;
    double u[3];
    double fx[2];
};
constexpr double pi = 3.14159265358979323846;
#define SETUP(x) defined(HV_##x)
#if SETUP(shock_tube)
State rule(World const& w, Cell const& q)
{
    bool const left = w.xc(q, 0) <= w.real("inter");
    double const v = left ? w.real("u0") : w.real("u1");
    return {left ? w.real("rho0") : w.real("rho1"), left ? w.real("P0") : w.real("P1"), {v, v, v}, {}};
}
#elif SETUP(shock_wall)
State rule(World const& w, Cell const&)
{
    double const v = w.real("u0");
    return {w.real("rho0"), w.real("P0"), {v, v, v}, {}};
}
#elif SETUP(advection_gap)
State rule(World const& w, Cell const& q)
{
    double const v = w.real("u0");
    double const x = w.xc(q, 0);
    return {x > 0.3 && x < 0.7 ? w.real("rho1") : w.real("rho0"), w.real("P0"), {v, v, v}, {}};
}
#elif SETUP(advection_sinus)
State rule(World const& w, Cell const& q)
{
    double const v = w.real("u0");
    return {1 + 0.1 * std::sin(2 * pi * w.xc(q, 0)), w.real("P0"), {v, v, v}, {}};
}
#elif SETUP(sedov1d)
// all the energy of the explosion in the first cell: half of it on this side of a plane, all of it around the centre
State rule(World const& w, Cell const& q)
{
    double const v = w.real("u0");
    double const rho = w.real("rho0");
    double const dv = hv_view<KV_cdouble_3d>("dv")(0, 0, 0);
    bool const first = w.c[0] == 0 && q.x[0] == w.ng[0];
    double const e = first ? (geom == Geometry::Geom_cartesian ? 0.5 : 1) * w.real("E1") : w.real("E0");
    return {rho, w.eos.compute_pres_from_temp(rho, w.eos.compute_temp_from_evol(rho, e / dv)), {v, v, v}, {}};
}
#elif SETUP(sedov2d)
State rule(World const& w, Cell const& q)
{
    double const v = w.real("u0");
    double const rho = w.real("rho0");
    double const x = w.xl(q, 0), y = w.xl(q, 1);
    double const e = std::sqrt(x * x + y * y) < 0.025 ? w.real("E1") : w.real("E0");
    return {rho, w.eos.compute_pres_from_evol(rho, e / at(w.g.dv, q)), {v, v, v}, {}};
}
#elif SETUP(sedov3d)
State rule(World const& w, Cell const& q)
{
    double const rho = w.real("rho0");
    bool const in = w.xl(q, 0) == 1 && q.x[1] + w.c[1] - w.ng[1] == w.glob[1] / 2 && q.x[2] + w.c[2] - w.ng[2] == w.glob[2] / 2;
    double const a = w.eos.compute_pres_from_evol(rho, w.real("E1") / at(w.g.dv, q));
    return {rho, in ? a : w.real("P0"), {0, 0, 0}, {}};
}
#elif SETUP(gresho_vortex)
State rule(World const& w, Cell const& q)
{
    double const x = w.xc(q, 0), y = w.xc(q, 1);
    double const r = std::sqrt(x * x + y * y);
    double const th = std::atan2(y, x);
    double const ma = w.real("Ma");
    double const p0 = 1 / (w.eos.adiabatic_index() * ma * ma);
    double const rho = w.real("rho0") * units::density;
    double const v = w.real("u0");
    if (r < 0.2) {
        return {rho, p0 + 12.5 * r * r, {-5 * r * std::sin(th), 5 * r * std::cos(th)}, {}};
    }
    if (r < 0.4) {
        double const ut = 2 - 5 * r;
        return {rho, p0 + 12.5 * r * r + 4 * (1 - 5 * r + std::log(5 * r)), {-ut * std::sin(th), ut * std::cos(th)}, {}};
    }
    return {rho, p0 - 2 + 4 * 0.693147180559945309417, {v, v}, {}};
}
#elif SETUP(heat_nickel)
State rule(World const& w, Cell const&)
{
    double const rho = w.real("rho0") * units::density;
    double const v = w.real("u0") * units::velocity;
    return {rho, w.eos.compute_pres_from_temp(rho, w.real("T0")) * units::pressure, {v, v, v}, {w.real("fx0")}};
}
#elif SETUP(implosion_test)
State rule(World const& w, Cell const& q)
{
    bool const out = w.xc(q, 0) + w.xc(q, 1) > 0.15;
    double const v = w.real("u0");
    return {out ? w.real("rho0") : w.real("rho1"), out ? w.real("P0") : w.real("P1"), {v, v, v}, {}};
}
#elif SETUP(kelvin_helmholtz)
State rule(World const& w, Cell const& q)
{
    double const x = w.xc(q, 0), y = w.xc(q, 1);
    double const t = std::tanh((y - 0.5) / 0.05) - std::tanh((y - 1.5) / 0.05);
    double const s = 0.2 * 0.2;
    return {1 + t, w.real("P0"), {t, 0.01 * std::sin(pi * x) * (std::exp(-((y - 0.5) * (y - 0.5)) / s) + std::exp(-((y - 1.5) * (y - 1.5)) / s))}, {}};
}
#elif SETUP(rayleigh_taylor)
// rho0, fx0 above and rho1, fx1 below the interface
State rule(World const& w, Cell const& q)
{
    double const x = w.xc(q, 0), y = w.xc(q, 1);
    double const t = (1 + std::tanh((y - 0.01 * std::cos(4 * pi * x)) / 0.005)) / 2;
    double const v = w.real("u");
    double const r0 = w.real("rho0"), r1 = w.real("rho1"), f0 = w.real("fx0"), f1 = w.real("fx1");
    return {r1 + (r0 - r1) * t, 10. / 7 + 1. / 4 - r0 * std::fabs(w.grav(q, 1)) * y, {v, v}, {f1 + (f0 - f1) * t}};
}
#elif SETUP(rayleigh_taylor3d)
State rule(World const& w, Cell const& q)
{
    double const L = 10, gamma = 5. / 3;
    double const r0 = w.real("rho0"), r1 = w.real("rho1");
    double const g = std::fabs(w.grav(q, 2));
    double const p0 = 2 * units::pi * (r0 + r1) * g * L * units::pressure;
    double const x = 2 * units::pi * w.xl(q, 0) * units::m / L, y = 2 * units::pi * w.xl(q, 1) * units::m / L, z = w.xl(q, 2) * units::m;
    double const a = hv_sym("random#0"), b = hv_sym("random#1"), c = hv_sym("random#2"), d = hv_sym("random#3");
    double h = 0;
    for (int i = 0; i < 5; ++i) {
        for (int j = 0; j < 5; ++j) {
            if (i * i + j * j >= 8 && i * i + j * j <= 16) {
                h += a * std::cos(i * x) * std::cos(j * y) + b * std::cos(i * x) * std::sin(j * y) + c * std::sin(i * x) * std::cos(j * y)
                     + d * std::sin(i * x) * std::sin(j * y);
            }
        }
    }
    bool const up = z >= h;
    double const rr = up ? r0 : r1;
    double const rho = rr * std::pow(1 - (gamma - 1) / gamma * (rr * g * z) / p0, 1 / (gamma - 1)) * units::density;
    double const v = w.real("u0") * units::velocity;
    return {rho, p0 * std::pow(rho / rr, gamma) * units::pressure, {v, v, v}, {up ? 1. : 0.}};
}
#elif SETUP(eq_hydro_sphe)
// isothermal atmosphere around the mass M
#define HV_ATMOSPHERE 100
State rule(World const& w, Cell const& q)
{
    double const T = w.real("T0", 100);
    double const H = w.eos.mean_molecular_weight() * units::mp * units::G * w.real("M", 1, "Gravity") / (units::kb * T);
    double const rho = w.real("rho0") * std::exp(H / w.xc(q, 0));
    double const v = w.real("u0");
    return {rho, w.eos.compute_pres_from_temp(rho, T), {v, v, v}, {}};
}
#elif SETUP(stratified_atm)
// isothermal atmosphere in the field of gravity
#define HV_ATMOSPHERE 1
State rule(World const& w, Cell const& q)
{
    double const T = w.real("T0");
    double const H = w.eos.mean_molecular_weight() * units::mp * std::fabs(w.grav(q, 0)) / (units::kb * T);
    double const rho = w.real("rho0") * std::exp(-w.xc(q, 0) * H);
    double const v = w.real("u0");
    return {rho, w.eos.compute_pres_from_temp(rho, T), {v, v, v}, {}};
}
#endif
} // namespace
extern "C" {
// what the cells hold afterwards
void state()
{
    World w(HV_NFX);
    w.run();
    Cell const q = cell(w.bx);
    hv_note("rho", at(w.rho, q));
    hv_note("P", at(w.P, q));
    for (int d = 0; d < ndim; ++d) {
        hv_note("u", at(w.u, q, d), (long)d);
    }
    for (int d = 0; d < HV_NFX; ++d) {
        hv_note("fx", at(w.fx, q, d), (long)d);
    }
}
void others()
{
    World w(HV_NFX);
    w.run();
    // an arbitrary cell of the block with its ghosts
    static char const* const ii[] = {"i", "j", "k"};
    Cell q;
    for (int d = 0; d < 3; ++d) {
        q.x[d] = (int)isym_ge(ii[d], 0);
        hv_fact(w.g.Nx_local_wg[d] - 1 - q.x[d]);
    }
    bool in = true;
    for (int d = 0; d < 3; ++d) {
        in = in && q.x[d] >= w.ng[d] && q.x[d] < w.ng[d] + w.bx.n[d];
    }
    hv_eq("density outside the range", in ? 0 : at(w.rho, q), in ? 0 : at(hv_view<KV_double_3d>("old rho"), q));
    hv_eq("pressure outside the range", in ? 0 : at(w.P, q), in ? 0 : at(hv_view<KV_double_3d>("old P"), q));
    for (int d = 0; d < ndim; ++d) {
        hv_eq("velocity outside the range", in ? 0 : at(w.u, q, d), in ? 0 : at(hv_view<KV_double_4d>("old u"), q, d));
    }
    for (int d = 0; d < HV_NFX; ++d) {
        hv_eq("passive scalar outside the range", in ? 0 : at(w.fx, q, d), in ? 0 : at(hv_view<KV_double_4d>("old fx"), q, d));
    }
}
#ifndef HV_FREE
void formula()
{
    World w(HV_NFX);
    w.run();
    Cell const q = cell(w.bx);
    State const s = rule(w, q);
    hv_near("density", at(w.rho, q), s.rho);
    hv_near("pressure", at(w.P, q), s.P);
    for (int d = 0; d < ndim; ++d) {
        hv_near("velocity", at(w.u, q, d), s.u[d]);
    }
    for (int d = 0; d < HV_NFX; ++d) {
        hv_near("passive scalar", at(w.fx, q, d), s.fx[d]);
    }
}
#endif
#if defined(HV_ATMOSPHERE) && defined(HV_BC)
#define HV_FACE(name, dir, side)                                                                                                                       \
    void name()                                                                                                                                        \
    {                                                                                                                                                  \
        face(dir, side);                                                                                                                               \
    }
static void face(int d, int side)
{
    World w(0);
    ParamSetup const p(w.ini);
    BoundarySetup<AnyGravity> const s(d, side, w.eos, p);
    IBoundaryCondition<AnyGravity> const& bc = s;
    bc.execute(w.g, w.gravity, w.rho, w.u, w.P, w.fx);
    static char const* const ii[] = {"i", "j", "k"};
    Cell q;
    for (int e = 0; e < 3; ++e) {
        q.x[e] = (int)isym_ge(ii[e], 0);
        hv_fact(w.g.Nx_local_wg[e] - 1 - q.x[e]);
    }
    bool const in = side == 0 ? q.x[d] < w.ng[d] : q.x[d] >= w.ng[d] + w.bx.n[d];
    State const r = rule(w, q);
    double ek = 0;
    for (int e = 0; e < ndim; ++e) {
        ek += r.rho * r.u[e] * r.u[e] / 2;
    }
    hv_near("density", at(w.rho, q), in ? r.rho : at(hv_view<KV_double_3d>("old rho"), q));
    double const T = w.real("T0", HV_ATMOSPHERE);
    hv_near("total energy", at(w.P, q), in ? w.eos.compute_evol_from_temp(r.rho, T) + ek : at(hv_view<KV_double_3d>("old P"), q));
    for (int e = 0; e < ndim; ++e) {
        hv_near("momentum", at(w.u, q, e), in ? r.rho * r.u[e] : at(hv_view<KV_double_4d>("old u"), q, e));
    }
}
HV_FACE(face_0_left, 0, 0)
HV_FACE(face_0_right, 0, 1)
HV_FACE(face_1_left, 1, 0)
HV_FACE(face_1_right, 1, 1)
HV_FACE(face_2_left, 2, 0)
HV_FACE(face_2_right, 2, 1)
#endif
}
