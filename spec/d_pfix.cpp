// Internal-energy correction of cold supersonic flows.
#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <pressure_fix.hpp>
#include <range.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
extern "C" {
void pfix()
{
    Box const b = box(2, 0);
    Range const r = range(b);
    Grid const& g = grid();
    KV_cdouble_4d const ds = g.ds;
    KV_cdouble_3d const dv = g.dv;
    auto const rho = hv_view<KV_cdouble_3d>("rho"), E = hv_view<KV_cdouble_3d>("E"), rho1 = hv_view<KV_cdouble_3d>("rho1"), E1 = hv_view<KV_cdouble_3d>("E1");
    auto const m = hv_view<KV_cdouble_4d>("m"), m1 = hv_view<KV_cdouble_4d>("m1");
    auto const rr = hv_view<KV_cdouble_5d>("rr"), Er = hv_view<KV_cdouble_5d>("Er");
    auto const mr = hv_view<KV_cdouble_6d>("mr");
    int n[3];
    static char const* const ii[] = {"i", "j", "k"};
    Cell c;
    bool in = true;
    for (int d = 0; d < 3; ++d) {
        n[d] = b.n[d] + (d < ndim ? 4 : 0);
        c.x[d] = (int)isym_ge(ii[d], 0);
        hv_fact(n[d] - 1 - c.x[d]);
        in = in && c.x[d] >= b.lo[d] && c.x[d] < b.hi[d];
    }
    KV_double_3d const out("out", n[0], n[1], n[2]);
    Kokkos::deep_copy(out, E1);
    double const dt = hv_sym("dt");
    double const eps = hv_pos("eps");
    any::Eos const eos;
    pressure_fix(r, eos, g, dt, eps, rho, m, E, rr, mr, Er, rho1, m1, out);
    auto const kin = [](auto const& ro, auto const& mo, Cell const& q) {
        double s = 0;
        for (int d = 0; d < ndim; ++d) {
            s += at(mo, q, d) * at(mo, q, d);
        }
        return s / (2 * at(ro, q));
    };
    auto const internal = [&](Cell const& q) { return at(E, q) - kin(rho, m, q); };
    double const ek = kin(rho, m, c);
    double const e = internal(c);
    double const ek1 = kin(rho1, m1, c);
    double const e1 = at(E1, c) - ek1;
    double const alpha = e < eps / 10 * ek ? 0 : (e / (eps * ek)) * (e / (eps * ek));
    double divu = 0;
    double dive = 0;
    for (int d = 0; d < ndim; ++d) {
        Cell const p = shift(c, d, 1);
        Cell const q = shift(c, d, -1);
        double const up = (at(mr, c, 1, d, d) / at(rr, c, 1, d) + at(mr, p, 0, d, d) / at(rr, p, 0, d)) / 2;
        double const um = (at(mr, q, 1, d, d) / at(rr, q, 1, d) + at(mr, c, 0, d, d) / at(rr, c, 0, d)) / 2;
        divu += (up * at(ds, p, d) - um * at(ds, c, d)) / at(dv, c);
        dive += (up * at(ds, p, d) * (up > 0 ? e : internal(p)) - um * at(ds, c, d) * (um > 0 ? internal(q) : e)) / at(dv, c);
    }
    double const P = eos.compute_pres_from_evol(at(rho, c), e);
    double const fixed = e + alpha * (e1 - e) + (1 - alpha) * dt * (-P * divu - dive) + ek1;
    hv_eq("energy", at(out, c), in && e < eps * ek ? fixed : at(E1, c));
}
}
