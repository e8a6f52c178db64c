// One finite-volume step against the integral form of the conservation laws.
#include <cmath>
#include <geom.hpp>
#include <godunov_scheme.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
double call(char const* f, EulerCons const& L, EulerCons const& R, int d, int c)
{
    if constexpr (ndim == 1) {
        return hv_fn(f, L.rho, L.rhou[0], L.E, R.rho, R.rhou[0], R.E, (long)d, (long)c);
    } else if constexpr (ndim == 2) {
        return hv_fn(f, L.rho, L.rhou[0], L.rhou[1], L.E, R.rho, R.rhou[0], R.rhou[1], R.E, (long)d, (long)c);
    } else {
        return hv_fn(f, L.rho, L.rhou[0], L.rhou[1], L.rhou[ndim - 1], L.E, R.rho, R.rhou[0], R.rhou[1], R.rhou[ndim - 1], R.E, (long)d, (long)c);
    }
}
struct AnySolver
{
    template <class EoS>
    EulerFlux operator()(EulerCons const& L, EulerCons const& R, int d, EoS const&) const noexcept
    {
        EulerFlux F;
        F.rho = call("Fm", L, R, d, 0);
        for (int c = 0; c < ndim; ++c) {
            F.rhou[c] = call("Fp", L, R, d, c);
        }
        F.E = call("Fe", L, R, d, 0);
        return F;
    }
};
constexpr bool sph = geom == Geometry::Geom_spherical;
struct Data
{
    KV_double_3d rho = hv_view<KV_double_3d>("rho"), E = hv_view<KV_double_3d>("E");
    KV_double_4d rhou = hv_view<KV_double_4d>("rhou"), fx = hv_view<KV_double_4d>("fx");
    KV_double_5d rho_r = hv_view<KV_double_5d>("rho_rec"), E_r = hv_view<KV_double_5d>("E_rec");
    KV_double_6d rhou_r = hv_view<KV_double_6d>("rhou_rec"), fx_r = hv_view<KV_double_6d>("fx_rec");
    KV_double_3d rho_n = hv_view<KV_double_3d>("rho_new"), E_n = hv_view<KV_double_3d>("E_new");
    KV_double_4d rhou_n = hv_view<KV_double_4d>("rhou_new"), fx_n = hv_view<KV_double_4d>("fx_new");
    EulerCons face(Cell const& c, int side, int d) const
    {
        EulerCons U;
        U.rho = at(rho_r, c, side, d);
        for (int q = 0; q < ndim; ++q) {
            U.rhou[q] = at(rhou_r, c, side, d, q);
        }
        U.E = at(E_r, c, side, d);
        return U;
    }
    // the one flux of the face between c-e_d and c
    EulerFlux flux(Cell const& c, int d) const { return AnySolver {}(face(shift(c, d, -1), 1, d), face(c, 0, d), d, any::Eos {}); }
};
double vel(EulerCons const& U, int d) { return U.rhou[d] / U.rho; }
double pres(EulerCons const& U)
{
    double n = 0;
    for (int q = 0; q < ndim; ++q) {
        n += U.rhou[q] * U.rhou[q];
    }
    return any::Eos {}.compute_pres_from_evol(U.rho, U.E - n / (2 * U.rho));
}
double S(Cell const& c, int d) { return at(grid().ds, c, d); }
// geometric (curvature) source of momentum component q from the fluxes along d, per unit dt/dv
double curvature(Data const& D, Cell const& c, int q)
{
    double s = 0;
    if (!sph) {
        return 0;
    }
    for (int d = 0; d < ndim; ++d) {
        EulerCons const L = D.face(c, 0, d);
        EulerCons const R = D.face(c, 1, d);
        double const SL = S(c, d);
        double const SR = S(shift(c, d, 1), d);
        auto mean = [&](int a, int b) { return (L.rho * vel(L, a) * vel(L, b) + R.rho * vel(R, a) * vel(R, b)) / 2; };
        auto carry = [&](int a, int b) { return R.rho * vel(R, a) * vel(R, b) * SR + L.rho * vel(L, a) * vel(L, b) * SL; };
        if (d == 0) {
            double const r0 = grid().x0(c.x[0]);
            double const r1 = grid().x0(c.x[0] + 1);
            if (q == 0) {
                s += (pres(L) + pres(R)) / 2 * (SR - SL);
                for (int t = 1; t < ndim; ++t) {
                    s += mean(t, t) * (SR - SL) / 2;
                }
            } else {
                s -= (r1 - r0) / (r1 + r0) * carry(q, 0);
            }
        }
        if (d == 1) {
            double const t0 = grid().x1(c.x[1]);
            double const t1 = grid().x1(c.x[1] + 1);
            if (q == 1) {
                s += (pres(L) + pres(R)) / 2 * (SR - SL);
                if (ndim == 3) {
                    double const th = (t0 + t1) / 2;
                    s += mean(ndim - 1, ndim - 1) * std::cos(th) / std::sin(th) * (SR - SL) / 2;
                }
            }
            if (q == 2) {
                s -= (std::sin(t1) - std::sin(t0)) / (std::sin(t1) + std::sin(t0)) * carry(2, 1);
            }
        }
    }
    return s;
}
template <class F>
void step(F check)
{
    for (int g = 0; g < 2; ++g) {
        Box const b = box(2, g);
        Range const r = range(b);
        Data D;
        AnyGravity grav;
        double const dt = hv_pos("dt");
        RiemannBasedGodunovScheme<AnySolver, AnyGravity, any::Eos> const s(AnySolver {}, any::Eos {});
        IGodunovScheme<AnyGravity> const& is = s;
        is.execute(r, grid(), grav, dt, D.rho, D.rhou, D.E, D.fx, D.rho_r, D.rhou_r, D.E_r, D.fx_r, D.rho_n, D.rhou_n, D.E_n, D.fx_n);
        check(D, b, cell(b), dt);
    }
}
double div(Data const& D, Cell const& c, auto&& get)
{
    double s = 0;
    for (int d = 0; d < ndim; ++d) {
        Cell const p = shift(c, d, 1);
        s += get(D.flux(c, d)) * S(c, d) - get(D.flux(p, d)) * S(p, d);
    }
    return s;
}
} // namespace
extern "C" {
void god_mass()
{
    step([](Data const& D, Box const&, Cell const& c, double dt) {
        double const h = dt / at(grid().dv, c);
        hv_eq("mass balance", at(D.rho_n, c), at(D.rho, c) + h * div(D, c, [](EulerFlux const& F) { return F.rho; }));
    });
}
void god_momentum()
{
    step([](Data const& D, Box const&, Cell const& c, double dt) {
        double const h = dt / at(grid().dv, c);
        for (int q = 0; q < ndim; ++q) {
            hv_eq("momentum balance",
                  at(D.rhou_n, c, q),
                  at(D.rhou, c, q) + h * div(D, c, [q](EulerFlux const& F) { return F.rhou[q]; }) + h * curvature(D, c, q)
                          + dt * at(D.rho, c) * AnyGravity {}(c.x[0], c.x[1], c.x[2], q));
        }
    });
}
void god_energy()
{
    step([](Data const& D, Box const&, Cell const& c, double dt) {
        double const h = dt / at(grid().dv, c);
        double work = 0;
        for (int q = 0; q < ndim; ++q) {
            work += at(D.rhou, c, q) * AnyGravity {}(c.x[0], c.x[1], c.x[2], q);
        }
        hv_eq("energy balance", at(D.E_n, c), at(D.E, c) + h * div(D, c, [](EulerFlux const& F) { return F.E; }) + dt * work);
    });
}
void god_scalar()
{
    step([](Data const& D, Box const&, Cell const& c, double dt) {
        double const h = dt / at(grid().dv, c);
        long const n = D.fx.extent_int(3);
        int const f = (int)isym_ge("f", 0);
        hv_fact(n - 1 - f);
        double m = at(D.fx, c, f) * at(D.rho, c);
        for (int d = 0; d < ndim; ++d) {
            Cell const l = shift(c, d, -1);
            Cell const p = shift(c, d, 1);
            double const FL = D.flux(c, d).rho;
            double const FR = D.flux(p, d).rho;
            double const aL = FL < 0 ? at(D.fx_r, c, 0, d, f) : at(D.fx_r, l, 1, d, f);
            double const aR = FR < 0 ? at(D.fx_r, p, 0, d, f) : at(D.fx_r, c, 1, d, f);
            m += h * (aL * FL * S(c, d) - aR * FR * S(p, d));
        }
        double const rho = at(D.rho, c) + h * div(D, c, [](EulerFlux const& F) { return F.rho; });
        double const x = m / rho;
        hv_eq("scalar: upwind mass-weighted transport, kept within [0,1]", at(D.fx_n, c, f), x < 0 ? 0. : 1 < x ? 1. : x);
    });
}
}
