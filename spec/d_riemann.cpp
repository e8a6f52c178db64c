#include <cmath>
#include "any.hpp"
#include "riemann_solver.hpp"
using namespace hclpp;
namespace {
struct Side
{
    double rho, u[3], P, c, E;
};
EulerCons state(char const* r, char const* m0, char const* m1, char const* m2, char const* e)
{
    EulerCons U;
    char const* m[] = {m0, m1, m2};
    U.rho = hv_pos(r);
    for (int k = 0; k < ndim; ++k) {
        U.rhou[k] = hv_sym(m[k]);
    }
    U.E = hv_sym(e);
    return U;
}
EulerCons left() { return state("rhoL", "mxL", "myL", "mzL", "EL"); }
EulerCons right() { return state("rhoR", "mxR", "myR", "mzR", "ER"); }
Side side(EulerCons const& U)
{
    any::Eos eos;
    Side s;
    double ek = 0;
    for (int k = 0; k < ndim; ++k) {
        s.u[k] = U.rhou[k] / U.rho;
        ek += U.rhou[k] * U.rhou[k];
    }
    ek = ek / (2 * U.rho);
    s.rho = U.rho;
    s.E = U.E;
    s.P = eos.compute_pres_from_evol(U.rho, U.E - ek);
    s.c = eos.compute_speed_of_sound(U.rho, s.P);
    return s;
}
// the exact flux of the conservation laws, with the total energy of the state (E) given
EulerFlux exact(Side const& s, double E, int d)
{
    EulerFlux F;
    F.rho = s.rho * s.u[d];
    for (int k = 0; k < ndim; ++k) {
        F.rhou[k] = s.rho * s.u[d] * s.u[k] + (k == d ? s.P : 0.);
    }
    F.E = s.u[d] * (E + s.P);
    return F;
}
// energy re-assembled from the primitive state
double etot(Side const& s)
{
    any::Eos eos;
    double n = 0;
    for (int k = 0; k < ndim; ++k) {
        n += s.u[k] * s.u[k];
    }
    return s.rho * n / 2 + eos.compute_evol_from_pres(s.rho, s.P);
}
void same(char const* what, EulerFlux const& A, EulerFlux const& B)
{
    hv_eq((std::string(what) + " mass").c_str(), A.rho, B.rho);
    for (int k = 0; k < ndim; ++k) {
        hv_eq((std::string(what) + " momentum").c_str(), A.rhou[k], B.rhou[k]);
    }
    hv_eq((std::string(what) + " energy").c_str(), A.E, B.E);
}
double min(double a, double b) { return a < b ? a : b; }
double max(double a, double b) { return a > b ? a : b; }

EulerFlux ref_hll(EulerCons const& L, EulerCons const& R, int d)
{
    Side const l = side(L);
    Side const r = side(R);
    double const sl = min(l.u[d] - l.c, r.u[d] - r.c);
    double const sr = max(l.u[d] + l.c, r.u[d] + r.c);
    EulerFlux const FL = exact(l, etot(l), d);
    EulerFlux const FR = exact(r, etot(r), d);
    if (sl >= 0) {
        return FL;
    }
    if (sr <= 0) {
        return FR;
    }
    EulerFlux F;
    F.rho = (sr * FL.rho - sl * FR.rho + sl * sr * (R.rho - L.rho)) / (sr - sl);
    for (int k = 0; k < ndim; ++k) {
        F.rhou[k] = (sr * FL.rhou[k] - sl * FR.rhou[k] + sl * sr * (R.rhou[k] - L.rhou[k])) / (sr - sl);
    }
    F.E = (sr * FL.E - sl * FR.E + sl * sr * (R.E - L.E)) / (sr - sl);
    return F;
}
EulerFlux ref_hllc(EulerCons const& L, EulerCons const& R, int d)
{
    Side const l = side(L);
    Side const r = side(R);
    double const sl = min(l.u[d] - l.c, r.u[d] - r.c);
    double const sr = max(l.u[d] + l.c, r.u[d] + r.c);
    // Toro (10.37)
    double const sm = (r.P - l.P + l.rho * l.u[d] * (sl - l.u[d]) - r.rho * r.u[d] * (sr - r.u[d])) / (l.rho * (sl - l.u[d]) - r.rho * (sr - r.u[d]));
    Side const& k = sm > 0 ? l : r;
    EulerCons const& U = sm > 0 ? L : R;
    double const s = sm > 0 ? sl : sr;
    EulerFlux F = exact(k, etot(k), d);
    if (sl * sr > 0) {
        return F;
    }
    // Toro (10.38), (10.39)
    double const un = k.u[d];
    double const f = k.rho * (s - un) / (s - sm);
    F.rho += s * (f - U.rho);
    for (int j = 0; j < ndim; ++j) {
        F.rhou[j] += s * (f * (j == d ? sm : k.u[j]) - U.rhou[j]);
    }
    F.E += s * (f * (U.E / U.rho + (sm - un) * (sm + k.P / (k.rho * (s - un)))) - U.E);
    return F;
}
EulerFlux ref_split(EulerCons const& L, EulerCons const& R, int d)
{
    Side const l = side(L);
    Side const r = side(R);
    double const a = 1.1 * max(l.rho * l.c, r.rho * r.c);
    double const us = (l.u[d] + r.u[d]) / 2 - (r.P - l.P) / (2 * a);
    double const ma = std::fabs(us) / min(l.c, r.c);
    double const th = min(1, ma);
    double const ps = (l.P + r.P) / 2 - th * a * (r.u[d] - l.u[d]) / 2;
    EulerCons const& U = us > 0 ? L : R;
    EulerFlux F;
    F.rho = us * U.rho;
    for (int j = 0; j < ndim; ++j) {
        F.rhou[j] = us * U.rhou[j] + (j == d ? ps : 0.);
    }
    F.E = us * (U.E + ps);
    return F;
}
template <class S>
void consistency()
{
    any::Eos eos;
    for (int d = 0; d < ndim; ++d) {
        EulerCons const U = left();
        EulerFlux const F = S {}(U, U, d, eos);
        Side const s = side(U);
        same("F(U,U) is the exact flux:", F, exact(s, s.E, d));
    }
}
EulerCons mirror(EulerCons U, int d)
{
    U.rhou[d] = -U.rhou[d];
    return U;
}
template <class S>
void symmetry()
{
    any::Eos eos;
    for (int d = 0; d < ndim; ++d) {
        EulerCons const L = left();
        EulerCons const R = right();
        EulerFlux const F = S {}(L, R, d, eos);
        EulerFlux G = S {}(mirror(R, d), mirror(L, d), d, eos);
        G.rho = -G.rho;
        for (int k = 0; k < ndim; ++k) {
            G.rhou[k] = k == d ? G.rhou[k] : -G.rhou[k];
        }
        G.E = -G.E;
        same("mirror image:", F, G);
    }
}
} // namespace
extern "C" {
void hll_formula() { any::Eos eos; for (int d = 0; d < ndim; ++d) { same("HLL:", HLL {}(left(), right(), d, eos), ref_hll(left(), right(), d)); } }
void hllc_formula() { any::Eos eos; for (int d = 0; d < ndim; ++d) { same("HLLC:", HLLC {}(left(), right(), d, eos), ref_hllc(left(), right(), d)); } }
void split_formula() { any::Eos eos; for (int d = 0; d < ndim; ++d) { same("low-Mach:", Splitting {}(left(), right(), d, eos), ref_split(left(), right(), d)); } }
void hll_cons() { consistency<HLL>(); }
void hllc_cons() { consistency<HLLC>(); }
void split_cons() { consistency<Splitting>(); }
void hll_sym() { symmetry<HLL>(); }
void hllc_sym() { symmetry<HLLC>(); }
void split_sym() { symmetry<Splitting>(); }
}
