// Objects selected by name in the input file.
#include <memory>
#include <string>
#include <boundary.hpp>
#include <boundary_factory.hpp>
#include <eos.hpp>
#include <face_reconstruction.hpp>
#include <geom.hpp>
#include <geometry.hpp>
#include <geometry_factory.hpp>
#include <godunov_scheme.hpp>
#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <limited_linear_reconstruction.hpp>
#include <param.hpp>
#include <riemann_solver.hpp>
#include <slope_limiters.hpp>
#include <user_step.hpp>
#include <user_step_factory.hpp>
#include <units.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
using Bc = IBoundaryCondition<AnyGravity>;
struct Peek : Bc
{
    using Bc::bc_idim;
    using Bc::bc_iface;
};
void const* kind(void const* p) { return *static_cast<void const* const*>(p); }
template <class T>
struct Choice
{
    char const* name;
    std::unique_ptr<T> ref;
};
template <class T, std::size_t N>
void expect(std::string const& s, Choice<T> const (&c)[N])
{
    bool any = false;
    for (std::size_t i = 0; i < N; ++i) {
        any = any || s == c[i].name;
    }
    hv_expect_throw(!any);
}
template <class T, std::size_t N>
void selects(std::string const& s, std::unique_ptr<T> const& p, Choice<T> const (&c)[N])
{
    hv_true("an object is returned", p.get() != nullptr);
    for (std::size_t i = 0; i < N; ++i) {
        hv_eqb(c[i].name, kind(p.get()) == kind(c[i].ref.get()), s == c[i].name);
    }
}
// only the energy of the cells of the range changes, by the heat released during the step
void step(IUserStep const& s, double t, double rate)
{
    using namespace world;
    Box const b = box(2, 0);
    Range const r = range(b);
    int const nfx = (int)isym_ge("nfx", 1);
    KV_double_3d const rho("rho", b.n[0] + 4, b.n[1] + 4, b.n[2] + 4);
    KV_double_3d const E("E", b.n[0] + 4, b.n[1] + 4, b.n[2] + 4);
    KV_double_4d const fx("fx", b.n[0] + 4, b.n[1] + 4, b.n[2] + 4, nfx);
    KV_double_3d const rho0 = hv_view<KV_double_3d>("rho0");
    KV_double_3d const E0 = hv_view<KV_double_3d>("E0");
    KV_double_4d const fx0 = hv_view<KV_double_4d>("fx0");
    Kokkos::deep_copy(rho, rho0);
    Kokkos::deep_copy(E, E0);
    Kokkos::deep_copy(fx, fx0);
    double const dt = hv_sym("dt");
    s.execute(r, t, dt, rho, E, fx);
    static char const* const ii[] = {"i", "j", "k"};
    Cell c;
    bool in = true;
    for (int d = 0; d < 3; ++d) {
        c.x[d] = (int)isym_ge(ii[d], 0);
        hv_fact(b.n[d] + 3 - c.x[d]);
        in = in && c.x[d] >= b.lo[d] && c.x[d] < b.hi[d];
    }
    int const q = (int)isym_ge("q", 0);
    hv_fact(nfx - 1 - q);
    hv_near("energy", at(E, c), in ? at(E0, c) + dt * at(rho0, c) * at(fx0, c, 0) * rate : at(E0, c));
    hv_eq("density", at(rho, c), at(rho0, c));
    hv_eq("passive scalar", at(fx, c, q), at(fx0, c, q));
}
std::string name()
{
    std::string s;
    hv_strsym(&s, "name");
    return s;
}
} // namespace
extern "C" {
void f_boundary()
{
    std::string const s = name();
    Choice<Bc> const c[] = {
            {"NullGradient", std::make_unique<NullGradient<AnyGravity>>(0, 0)},
            {"Periodic", std::make_unique<PeriodicCondition<AnyGravity>>(0, 0)},
            {"Reflexive", std::make_unique<ReflexiveCondition<AnyGravity>>(0, 0)}};
    expect(s, c);
    int const d = ndim - 1;
    std::unique_ptr<Bc> const p = factory_boundary_construction<AnyGravity>(s, d, 1);
    selects(s, p, c);
    hv_eqi("direction of the face", static_cast<Peek const&>(*p).bc_idim(), d);
    hv_eqi("side of the face", static_cast<Peek const&>(*p).bc_iface(), 1);
}
void f_reconstruction()
{
    std::string const s = name();
    Choice<IFaceReconstruction> const c[] = {
            {"Constant", std::make_unique<LimitedLinearReconstruction<Constant>>(Constant())},
            {"VanLeer", std::make_unique<LimitedLinearReconstruction<VanLeer>>(VanLeer())},
            {"Minmod", std::make_unique<LimitedLinearReconstruction<Minmod>>(Minmod())},
            {"VanAlbada", std::make_unique<LimitedLinearReconstruction<VanAlbada>>(VanAlbada())}};
    expect(s, c);
    selects(s, factory_face_reconstruction(s), c);
}
void f_godunov()
{
    std::string const s = name();
    any::Eos const eos;
    Choice<IGodunovScheme<AnyGravity>> const c[] = {
            {"HLL", std::make_unique<RiemannBasedGodunovScheme<HLL, AnyGravity, any::Eos>>(HLL(), eos)},
            {"HLLC", std::make_unique<RiemannBasedGodunovScheme<HLLC, AnyGravity, any::Eos>>(HLLC(), eos)},
            {"Low Mach", std::make_unique<RiemannBasedGodunovScheme<Splitting, AnyGravity, any::Eos>>(Splitting(), eos)}};
    expect(s, c);
    selects(s, factory_godunov_scheme<any::Eos, AnyGravity>(s, eos), c);
}
void f_grid()
{
    std::string const s = name();
    Param const& param = *static_cast<Param*>(hv_obj("param"));
    Choice<IGridType> const c[] = {{"Regular", std::make_unique<Regular>(param)}};
    expect(s, c);
    selects(s, factory_grid_type(s, param), c);
}
void f_step()
{
    std::string const s = name();
    Choice<IUserStep> const c[] = {{"Off", std::make_unique<NoUserStep>()}, {"Heat_nickel", std::make_unique<HeatNickelStep>()}};
    expect(s, c);
    selects(s, factory_user_step(s), c);
}
void f_geometry()
{
    std::unique_ptr<IComputeGeom> const p = factory_grid_geometry();
    std::unique_ptr<IComputeGeom> const a = std::make_unique<Cartesian>();
    std::unique_ptr<IComputeGeom> const b = std::make_unique<Spherical>();
    hv_eqb("Cartesian", kind(p.get()) == kind(a.get()), geom == Geometry::Geom_cartesian);
    hv_eqb("Spherical", kind(p.get()) == kind(b.get()), geom == Geometry::Geom_spherical);
}
void step_nickel()
{
    // decay chain 56Ni -> 56Co -> 56Fe (Nadyozhin 1994), rate per unit mass of initial 56Ni
    double const t = hv_sym("t");
    double const day = 86400.;
    double const tn = 8.8 * day;
    double const tc = 111.3 * day;
    double const MeV = units::MeV;
    double const m = 55.9421278 * units::atomic_mass_unit;
    double const rate = ((1.75 * MeV * (tc / tn - 1.) - 3.73 * MeV) * std::exp(-t / tn) + 3.73 * MeV * std::exp(-t / tc)) / (m * (tc - tn));
    step(HeatNickelStep(), t, rate);
}
void step_off() { step(NoUserStep(), hv_sym("t"), 0.); }
}
