// Half-step evolution of the face values, and the full MUSCL-Hancock reconstruction pipeline.
#include <cmath>
#include <memory>
#include <geom.hpp>
#include <extrapolation_reconstruction.hpp>
#include <hydro_reconstruction.hpp>
#include <limited_linear_reconstruction.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
constexpr bool sph = geom == Geometry::Geom_spherical;
struct Faces // the reconstructed primitive states of one cell: [side][direction]
{
    EulerPrim f[2][ndim];
};
double S(Cell const& c, int d) { return at(grid().ds, c, d); }
// textbook ideal flux
double flux_rho(EulerPrim const& p, int d) { return p.rho * p.u[d]; }
double flux_mom(EulerPrim const& p, int d, int q) { return p.rho * p.u[d] * p.u[q] + (d == q ? p.P : 0); }
double kin(EulerPrim const& p)
{
    double n = 0;
    for (int q = 0; q < ndim; ++q) {
        n += p.u[q] * p.u[q];
    }
    return p.rho * n / 2;
}
double energy(EulerPrim const& p) { return any::Eos {}.compute_evol_from_pres(p.rho, p.P) + kin(p); }
double flux_e(EulerPrim const& p, int d) { return p.u[d] * (energy(p) + p.P); }
double curvature(Faces const& F, Cell const& c, int q)
{
    double s = 0;
    if (!sph) {
        return 0;
    }
    for (int d = 0; d < ndim; ++d) {
        EulerPrim const& L = F.f[0][d];
        EulerPrim const& R = F.f[1][d];
        double const SL = S(c, d);
        double const SR = S(shift(c, d, 1), d);
        auto mean = [&](int a, int b) { return (L.rho * L.u[a] * L.u[b] + R.rho * R.u[a] * R.u[b]) / 2; };
        auto carry = [&](int a, int b) { return R.rho * R.u[a] * R.u[b] * SR + L.rho * L.u[a] * L.u[b] * SL; };
        if (d == 0) {
            double const r0 = grid().x0(c.x[0]);
            double const r1 = grid().x0(c.x[0] + 1);
            if (q == 0) {
                s += (L.P + R.P) / 2 * (SR - SL);
                for (int t = 1; t < ndim; ++t) {
                    s += mean(t, t) * (SR - SL) / 2;
                }
            } else {
                s -= (r1 - r0) / (r1 + r0) * carry(q, 0);
            }
        }
        if (d == 1) {
            double const t0 = grid().x1(c.x[1]);
            double const t1 = grid().x1(c.x[1] + 1);
            if (q == 1) {
                s += (L.P + R.P) / 2 * (SR - SL);
                if (ndim == 3) {
                    double const th = (t0 + t1) / 2;
                    s += mean(ndim - 1, ndim - 1) * std::cos(th) / std::sin(th) * (SR - SL) / 2;
                }
            }
            if (q == 2) {
                s -= (std::sin(t1) - std::sin(t0)) / (std::sin(t1) + std::sin(t0)) * carry(2, 1);
            }
        }
    }
    return s;
}
struct Out
{
    KV_double_5d rho = hv_view<KV_double_5d>("rho_rec"), E = hv_view<KV_double_5d>("E_rec");
    KV_double_6d rhou = hv_view<KV_double_6d>("rhou_rec"), fx = hv_view<KV_double_6d>("fx_rec");
};
// what the face values of cell c must be after the half step; U: face values before, per side and direction
template <class Rho, class Mom, class En, class Fx>
void check_half_step(Out const& o, Cell const& c, Faces const& F, double dt, int f, Rho rho0, Mom mom0, En en0, Fx fx0)
{
    AnyGravity g;
    double const h = dt / at(grid().dv, c);
    double dm = 0;
    double de = 0;
    double dx = 0;
    double dp[ndim];
    for (int q = 0; q < ndim; ++q) {
        dp[q] = h * curvature(F, c, q);
    }
    for (int d = 0; d < ndim; ++d) {
        EulerPrim const& L = F.f[0][d];
        EulerPrim const& R = F.f[1][d];
        double const SL = S(c, d);
        double const SR = S(shift(c, d, 1), d);
        dm += h * (flux_rho(L, d) * SL - flux_rho(R, d) * SR);
        de += h * (flux_e(L, d) * SL - flux_e(R, d) * SR);
        dx += h * (fx0(0, d) * flux_rho(L, d) * SL - fx0(1, d) * flux_rho(R, d) * SR);
        for (int q = 0; q < ndim; ++q) {
            dp[q] += h * (flux_mom(L, d, q) * SL - flux_mom(R, d, q) * SR);
        }
    }
    for (int side = 0; side < 2; ++side) {
        for (int d = 0; d < ndim; ++d) {
            double work = 0;
            for (int q = 0; q < ndim; ++q) {
                double const gq = g(c.x[0], c.x[1], c.x[2], q);
                work += gq * mom0(side, d, q);
                hv_eq("half-step momentum", at(o.rhou, c, side, d, q), mom0(side, d, q) + dp[q] + dt * gq * rho0(side, d));
            }
            hv_eq("half-step density", at(o.rho, c, side, d), rho0(side, d) + dm);
            hv_eq("half-step energy", at(o.E, c, side, d), en0(side, d) + de + dt * work);
            hv_eq("half-step scalar", o.fx(c.x[0], c.x[1], c.x[2], side, d, f), (rho0(side, d) * fx0(side, d) + dx) / (rho0(side, d) + dm));
        }
    }
}
} // namespace
extern "C" {
void hancock_step()
{
    {
        int const gh = (int)isym_ge("gh", 0);
        hv_fact(2 - gh);
        Box const b = box(2, gh);
        Range const r = range(b);
        Cell const c = cell(b);
        Out o;
        KV_double_5d P = hv_view<KV_double_5d>("P_rec");
        KV_double_6d u = hv_view<KV_double_6d>("u_rec");
        double const dt = hv_pos("dt");
        int const f = (int)isym_ge("f", 0);
        hv_fact(o.fx.extent_int(5) - 1 - f);
        same(o.fx.extent_int(3), 2);
        same(o.fx.extent_int(4), ndim);
        covers(o.fx, c);
        Faces F;
        EulerCons U[2][ndim];
        double X[2][ndim];
        for (int s = 0; s < 2; ++s) {
            for (int d = 0; d < ndim; ++d) {
                U[s][d].rho = F.f[s][d].rho = at(o.rho, c, s, d);
                F.f[s][d].P = at(P, c, s, d);
                U[s][d].E = at(o.E, c, s, d);
                X[s][d] = o.fx(c.x[0], c.x[1], c.x[2], s, d, f);
                for (int q = 0; q < ndim; ++q) {
                    F.f[s][d].u[q] = at(u, c, s, d, q);
                    U[s][d].rhou[q] = at(o.rhou, c, s, d, q);
                }
            }
        }
        HancockExtrapolationReconstruction<any::Eos, AnyGravity> const hk(any::Eos {});
        IExtrapolationReconstruction<AnyGravity> const& i = hk;
        i.execute(r, grid(), AnyGravity {}, dt, u, P, o.rho, o.rhou, o.E, o.fx);
        check_half_step(
                o, c, F, dt, f, [&](int s, int d) { return U[s][d].rho; }, [&](int s, int d, int q) { return U[s][d].rhou[q]; },
                [&](int s, int d) { return U[s][d].E; }, [&](int s, int d) { return X[s][d]; });
    }
}
// reconstruction of all variables, conversion at the faces, then the half step
void muscl_pipeline()
{
    struct AnySlope
    {
        double operator()(double a, double b) const noexcept { return hv_fn2("sym:slope", a, b); }
    };
    Box const b = box(2, 1);
    Range const r = range(b);
    Cell const c = cell(b);
    Out o;
    KV_double_3d rho = hv_view<KV_double_3d>("rho"), P = hv_view<KV_double_3d>("P");
    KV_double_4d u = hv_view<KV_double_4d>("u"), fx = hv_view<KV_double_4d>("fx");
    double const dt = hv_pos("dt");
    int const f = (int)isym_ge("f", 0);
    hv_fact(fx.extent_int(3) - 1 - f);
    hv_fact(o.fx.extent_int(5) - 1 - f);
    same(fx.extent_int(3), o.fx.extent_int(5));
    same(o.fx.extent_int(3), 2);
    same(o.fx.extent_int(4), ndim);
    covers(o.fx, c);
    MUSCLHancockHydroReconstruction<any::Eos, AnyGravity> const m(
            std::make_unique<LimitedLinearReconstruction<AnySlope>>(AnySlope {}),
            std::make_unique<HancockExtrapolationReconstruction<any::Eos, AnyGravity>>(any::Eos {}),
            any::Eos {},
            hv_view<KV_double_5d>("P_rec"),
            hv_view<KV_double_6d>("u_rec"));
    IHydroReconstruction<AnyGravity> const& im = m;
    im.execute(r, grid(), AnyGravity {}, dt, rho, u, P, fx, o.rho, o.rhou, o.E, o.fx);
    // linear reconstruction of any field along d, one side
    auto const rec = [&](auto get, int s, int d) {
        Cell const l = shift(c, d, -1);
        Cell const p = shift(c, d, 1);
        double const v = get(c);
        double const sl = (v - get(l)) / ((dx(grid(), l, d) + dx(grid(), c, d)) / 2);
        double const sr = (get(p) - v) / ((dx(grid(), c, d) + dx(grid(), p, d)) / 2);
        return v + (s == 0 ? -1 : 1) * dx(grid(), c, d) / 2 * AnySlope {}(sr, sl);
    };
    Faces F;
    double X[2][ndim];
    for (int s = 0; s < 2; ++s) {
        for (int d = 0; d < ndim; ++d) {
            F.f[s][d].rho = rec([&](Cell const& x) { return at(rho, x); }, s, d);
            F.f[s][d].P = rec([&](Cell const& x) { return at(P, x); }, s, d);
            X[s][d] = rec([&](Cell const& x) { return at(fx, x, f); }, s, d);
            for (int q = 0; q < ndim; ++q) {
                F.f[s][d].u[q] = rec([&](Cell const& x) { return at(u, x, q); }, s, d);
            }
        }
    }
    check_half_step(
            o, c, F, dt, f, [&](int s, int d) { return F.f[s][d].rho; }, [&](int s, int d, int q) { return F.f[s][d].rho * F.f[s][d].u[q]; },
            [&](int s, int d) { return energy(F.f[s][d]); }, [&](int s, int d) { return X[s][d]; });
}
}
