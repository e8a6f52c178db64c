// The arrays of a run, allocated as the main program does, and every operator applied to the cells it is used on.
#include <array>
#include <memory>
#include <string>
#include <mpi.h>
#include <inih/INIReader.hpp>
#include <array_conversion.hpp>
#include <broadcast.hpp>
#include <dual_view.hpp>
#include <eos.hpp>
#include <extrapolation_reconstruction.hpp>
#include <godunov_scheme.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <hydro_reconstruction.hpp>
#include <initialization_interface.hpp>
#include <integration.hpp>
#include <internal_energy.hpp>
#include <kokkos_shortcut.hpp>
#include <limited_linear_reconstruction.hpp>
#include <moving_grid.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <pressure_fix.hpp>
#include <range.hpp>
#include <setup.hpp>
#include <temperature.hpp>
#include <time_step.hpp>
#include <user_step.hpp>
#include "any.hpp"
#include "boundary.hpp"
#include "boundary_distribute.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
#ifndef HV_NFX
#define HV_NFX 1
#endif
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
struct AnySlope
{
    double operator()(double a, double b) const noexcept { return hv_fn2("slope", a, b); }
};
struct AnySolver
{
    template <class EoS>
    EulerFlux operator()(EulerCons const& l, EulerCons const& r, int d, EoS const&) const noexcept
    {
        EulerFlux f;
        f.rho = hv_fn2("f", l.rho, r.rho);
        f.E = hv_fn2("fE", l.E, r.E);
        for (int q = 0; q < ndim; ++q) {
            f.rhou[q] = hv_fn2("fm", l.rhou[q], r.rhou[d]);
        }
        return f;
    }
};
struct Fields
{
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
    Fields(std::string const& s, int const* N, int nfx) : rho(s + "rho", N[0], N[1], N[2]), E(s + "E", N[0], N[1], N[2]), rhou(s + "rhou", N[0], N[1], N[2], ndim), fx(s + "fx", N[0], N[1], N[2], nfx) {}
};
struct World
{
    Grid& g;
    Param& param;
    Box bx;
    int nfx;
    KDV_double_1d x0, x1, x2;
    World()
        : g(const_cast<Grid&>(grid()))
        , param(*static_cast<Param*>(hv_obj("param")))
        , bx(box((int)isym_ge("ng", 2), 0))
        , nfx(HV_NFX)
    {
        allocate(g, bx, range(bx));
        static char const* const nn[] = {"glob0", "glob1", "glob2"};
        static char const* const rr[] = {"rank0", "rank1", "rank2"};
        static char const* const dd[] = {"dims0", "dims1", "dims2"};
        for (int d = 0; d < 3; ++d) {
            g.Nx_glob_ng[d] = (int)isym_ge(nn[d], 1);
            hv_fact(g.Nx_glob_ng[d] - g.range.Corner_max[d]);
            g.mpi_rank_cart[d] = (int)isym_ge(rr[d], 0);
            g.mpi_dims_cart[d] = (int)isym_ge(dd[d], 1);
        }
        param.nfx = nfx;
        x0 = KDV_double_1d("x0 of the domain", g.Nx_glob_ng[0] + (2 * g.Nghost[0]) + 1);
        x1 = KDV_double_1d("x1 of the domain", g.Nx_glob_ng[1] + (2 * g.Nghost[1]) + 1);
        x2 = KDV_double_1d("x2 of the domain", g.Nx_glob_ng[2] + (2 * g.Nghost[2]) + 1);
        hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_pres", "pos:TP");
        hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_evol", "pos:TE");
    }
    int const* N() const { return g.Nx_local_wg.data(); }
    KV_double_3d array(char const* n) const { return KV_double_3d(n, N()[0], N()[1], N()[2]); }
    KV_double_4d vectors(char const* n) const { return KV_double_4d(n, N()[0], N()[1], N()[2], ndim); }
    KV_double_5d faces(char const* n) const { return KV_double_5d(n, N()[0], N()[1], N()[2], 2, ndim); }
    KV_double_6d faces(char const* n, int m) const { return KV_double_6d(n, N()[0], N()[1], N()[2], 2, ndim, m); }
};
} // namespace
extern "C" {
void b_mesh()
{
    World w;
    w.g.set_grid(w.x0(device, read_only), w.x1(device, read_only), w.x2(device, read_only));
}
void b_regular()
{
    World w;
    Regular const t(w.param);
    IGridType const& it = t;
    it.execute(w.g.Nghost, w.g.Nx_glob_ng, w.x0(host), w.x1(host), w.x2(host));
}
void b_fields()
{
    World w;
    Fields const f("", w.N(), w.nfx);
    KV_double_3d const P = w.array("P"), T = w.array("T");
    KV_double_4d const u = w.vectors("u");
    any::Eos const eos;
    Range const& r = w.g.range;
    conv_prim_to_cons(r.no_ghosts(), eos, f.rho, u, P, f.rhou, f.E);
    conv_cons_to_prim(r.all_ghosts(), eos, f.rho, f.rhou, f.E, u, P);
    temperature(r.all_ghosts(), eos, f.rho, P, T);
    double const dt = time_step(r.all_ghosts(), eos, w.g, f.rho, u, P);
    double const e = minimum_internal_energy(r.no_ghosts(), w.g, f.rho, f.rhou, f.E);
    double const s = integrate(r.no_ghosts(), w.g, P);
    hv_note("results", dt, e, s);
    KV_double_1d const line("line", w.g.Nx_local_ng[0]);
    broadcast(r.no_ghosts(), line, f.rho);
    broadcast(r.no_ghosts(), line, f.rhou);
    broadcast(r.no_ghosts(), dt, f.fx);
}
void b_gravity()
{
    World w;
    w.g.mpi_dims_cart[0] = 1;
    w.g.range = Range({0, w.g.range.Corner_min[1], w.g.range.Corner_min[2]}, {w.bx.n[0], w.g.range.Corner_max[1], w.g.range.Corner_max[2]}, w.g.Ng);
    static char const* const ii[] = {"i", "j", "k"};
    int c[3];
    for (int d = 0; d < 3; ++d) {
        c[d] = (int)isym_ge(ii[d], 0);
        hv_fact(w.N()[d] - 1 - c[d]);
    }
    PointMassGravity const p = make_point_mass_gravity(hv_sym("M"), w.g);
    InternalMassGravity const q = make_internal_mass_gravity(hv_sym("M"), w.g, w.array("rho"));
    for (int d = 0; d < ndim; ++d) {
        hv_note("gravity", p(c[0], c[1], c[2], d), q(c[0], c[1], c[2], d));
    }
}
void b_update()
{
    World w;
    Fields const f("", w.N(), w.nfx), n("new ", w.N(), w.nfx);
    KV_double_3d const P = w.array("P");
    KV_double_4d const u = w.vectors("u");
    any::Eos const eos;
    AnyGravity const gravity;
    double const dt = hv_pos("dt");
    Range const& r = w.g.range;
    KV_double_5d const rho_f = w.faces("rho faces"), E_f = w.faces("E faces"), P_f = w.faces("P faces");
    KV_double_6d const rhou_f = w.faces("rhou faces", ndim), u_f = w.faces("u faces", ndim), fx_f = w.faces("fx faces", w.nfx);
    MUSCLHancockHydroReconstruction<any::Eos, AnyGravity> const m(
            std::make_unique<LimitedLinearReconstruction<AnySlope>>(AnySlope {}), std::make_unique<HancockExtrapolationReconstruction<any::Eos, AnyGravity>>(eos), eos, P_f, u_f);
    IHydroReconstruction<AnyGravity> const& im = m;
    im.execute(r.with_ghosts(1), w.g, gravity, dt / 2, f.rho, u, P, f.fx, rho_f, rhou_f, E_f, fx_f);
    RiemannBasedGodunovScheme<AnySolver, AnyGravity, any::Eos> const s(AnySolver {}, eos);
    IGodunovScheme<AnyGravity> const& is = s;
    is.execute(r.no_ghosts(), w.g, gravity, dt, f.rho, f.rhou, f.E, f.fx, rho_f, rhou_f, E_f, fx_f, n.rho, n.rhou, n.E, n.fx);
    pressure_fix(r.no_ghosts(), eos, w.g, dt, hv_pos("eps"), f.rho, f.rhou, f.E, rho_f, rhou_f, E_f, n.rho, n.rhou, n.E);
    HeatNickelStep const h;
    IUserStep const& ih = h;
    ih.execute(r.no_ghosts(), hv_sym("t"), dt, n.rho, n.E, n.fx);
}
void b_boundary()
{
    World w;
    Fields const f("", w.N(), w.nfx);
    AnyGravity const gravity;
    for (int d = 0; d < ndim; ++d) {
        for (int s = 0; s < 2; ++s) {
            std::unique_ptr<IBoundaryCondition<AnyGravity>> const a = std::make_unique<NullGradient<AnyGravity>>(d, s), b = std::make_unique<ReflexiveCondition<AnyGravity>>(d, s);
            a->execute(w.g, gravity, f.rho, f.rhou, f.E, f.fx);
            b->execute(w.g, gravity, f.rho, f.rhou, f.E, f.fx);
        }
    }
}
void b_exchange()
{
    World w;
    Fields const f("", w.N(), w.nfx);
    for (int d = 0; d < ndim; ++d) {
        hv_fact(w.bx.n[d] - w.bx.ng); // the neighbours' ghost cells are cells of this process
        w.g.is_border[d] = {false, false};
    }
    w.param.bc_priority = "";
    DistributedBoundaryCondition const bc(w.g, w.param);
    std::array<std::unique_ptr<IBoundaryCondition<AnyGravity>>, nfaces> const none;
    bc(none, w.g, AnyGravity {}, f.rho, f.rhou, f.E, f.fx);
}
void b_shift()
{
    World w;
    Fields const f("", w.N(), w.nfx), n("new ", w.N(), w.nfx);
    shift_grid(f.rho, f.rhou, f.E, f.fx, n.rho, n.rhou, n.E, n.fx, w.x0, w.x1, w.x2, w.g);
}
void b_setup()
{
    World w;
    Fields const f("", w.N(), w.nfx);
    KV_double_3d const P = w.array("P");
    KV_double_4d const u = w.vectors("u");
    INIReader const& ini = *static_cast<INIReader const*>(hv_obj("ini"));
    EOS const& eos = *static_cast<EOS const*>(hv_obj("eos"));
    ParamSetup const p(ini);
    AnyGravity const gravity;
    InitializationSetup<AnyGravity> const s(eos, p, gravity);
    IInitializationProblem const& problem = s;
    problem.execute(w.g.range.no_ghosts(), w.g, f.rho, u, P, f.fx);
#ifdef HV_BC
    for (int d = 0; d < ndim; ++d) {
        for (int i = 0; i < 2; ++i) {
            BoundarySetup<AnyGravity> const b(d, i, eos, p);
            IBoundaryCondition<AnyGravity> const& ib = b;
            ib.execute(w.g, gravity, f.rho, f.rhou, f.E, f.fx);
        }
    }
#endif
}
}
