// Primitive <-> conservative variables, physical flux, and the array kernels that convert whole fields.
#include <array_conversion.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
any::Eos const eos {};
EulerPrim prim()
{
    EulerPrim p;
    p.rho = hv_pos("rho");
    for (int d = 0; d < ndim; ++d) {
        p.u[d] = hv_sym(any::nm(d));
    }
    p.P = hv_pos("P");
    return p;
}
EulerCons cons()
{
    EulerCons c;
    c.rho = hv_pos("rho");
    for (int d = 0; d < ndim; ++d) {
        c.rhou[d] = hv_sym(any::nm(d));
    }
    c.E = hv_pos("E");
    return c;
}
double sq(auto const& v)
{
    double s = 0;
    for (int d = 0; d < ndim; ++d) {
        s += v[d] * v[d];
    }
    return s;
}
} // namespace
extern "C" {
void conv_point()
{
    EulerPrim const p = prim();
    EulerCons const U = to_cons(p, eos);
    double const e = eos.compute_evol_from_pres(p.rho, p.P);
    hv_eq("to_cons rho", U.rho, p.rho);
    hv_eq("to_cons E", U.E, e + p.rho * sq(p.u) / 2);
    hv_eq("kinetic energy of primitives", compute_ek(p), p.rho * sq(p.u) / 2);
    EulerCons const W = cons();
    EulerPrim const q = to_prim(W, eos);
    double const w = W.E - sq(W.rhou) / (2 * W.rho);
    hv_eq("to_prim rho", q.rho, W.rho);
    hv_eq("to_prim P", q.P, eos.compute_pres_from_evol(W.rho, w));
    hv_eq("kinetic energy of conservatives", compute_ek(W), sq(W.rhou) / (2 * W.rho));
    hv_eq("internal energy", compute_evol(W), w);
    for (int d = 0; d < ndim; ++d) {
        hv_eq("to_cons momentum", U.rhou[d], p.rho * p.u[d]);
        hv_eq("to_prim velocity", q.u[d], W.rhou[d] / W.rho);
    }
    // round trips
    EulerPrim const b = to_prim(U, eos);
    EulerCons const c = to_cons(q, eos);
    hv_eq("round trip rho", b.rho, p.rho);
    hv_eq("round trip P", b.P, p.P);
    hv_eq("round trip back rho", c.rho, W.rho);
    hv_eq("round trip back E", c.E, W.E);
    for (int d = 0; d < ndim; ++d) {
        hv_eq("round trip u", b.u[d], p.u[d]);
        hv_eq("round trip back rhou", c.rhou[d], W.rhou[d]);
    }
}
void conv_flux()
{
    EulerPrim const p = prim();
    EulerCons const U = to_cons(p, eos);
    for (int l = 0; l < ndim; ++l) {
        EulerFlux const F = compute_flux(p, l, eos);
        EulerFlux const G = compute_flux(U, l, eos);
        double const E = eos.compute_evol_from_pres(p.rho, p.P) + p.rho * sq(p.u) / 2;
        hv_eq("mass flux", F.rho, p.rho * p.u[l]);
        hv_eq("energy flux", F.E, p.u[l] * (E + p.P));
        hv_eq("mass flux (conservative form)", G.rho, p.rho * p.u[l]);
        hv_eq("energy flux (conservative form)", G.E, p.u[l] * (E + p.P));
        for (int d = 0; d < ndim; ++d) {
            double const m = p.rho * p.u[l] * p.u[d] + (d == l ? p.P : 0);
            hv_eq("momentum flux", F.rhou[d], m);
            hv_eq("momentum flux (conservative form)", G.rhou[d], m);
        }
    }
}
void conv_arrays()
{
    for (int g = 0; g < 3; ++g) {
        Box const b = box(2, g);
        Range const r = range(b);
        Cell const c = cell(b);
        KV_double_3d rho = hv_view<KV_double_3d>("rho"), E = hv_view<KV_double_3d>("E"), P = hv_view<KV_double_3d>("P");
        KV_double_4d rhou = hv_view<KV_double_4d>("rhou"), u = hv_view<KV_double_4d>("u");
        KV_double_3d E2 = hv_view<KV_double_3d>("E2"), P2 = hv_view<KV_double_3d>("P2");
        KV_double_4d rhou2 = hv_view<KV_double_4d>("rhou2"), u2 = hv_view<KV_double_4d>("u2");
        EulerPrim p;
        EulerCons w;
        p.rho = w.rho = at(rho, c);
        p.P = at(P, c);
        w.E = at(E, c);
        for (int d = 0; d < ndim; ++d) {
            p.u[d] = at(u, c, d);
            w.rhou[d] = at(rhou, c, d);
        }
        double const kp = p.rho * sq(p.u) / 2;
        double const kw = sq(w.rhou) / (2 * w.rho);
        conv_prim_to_cons(r, eos, rho, u, P, rhou2, E2);
        conv_cons_to_prim(r, eos, rho, rhou, E, u2, P2);
        hv_eq("array E", at(E2, c), eos.compute_evol_from_pres(p.rho, p.P) + kp);
        hv_eq("array P", at(P2, c), eos.compute_pres_from_evol(w.rho, w.E - kw));
        for (int d = 0; d < ndim; ++d) {
            hv_eq("array rhou", at(rhou2, c, d), p.rho * p.u[d]);
            hv_eq("array u", at(u2, c, d), w.rhou[d] / w.rho);
        }
        // inputs untouched
        hv_eq("array rho untouched", at(rho, c), p.rho);
    }
}
}
