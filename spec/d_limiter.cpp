#include <cmath>
#include <face_reconstruction.hpp>
#include <grid.hpp>
#include <limited_linear_reconstruction.hpp>
#include <range.hpp>
#include <slope_limiters.hpp>
#include "any.hpp"
using namespace hclpp;
namespace {
double minmod(double a, double b) { return a * b > 0 ? (std::fabs(a) < std::fabs(b) ? a : b) : 0; }
double vanleer(double a, double b) { return a * b > 0 ? 2 * a * b / (a + b) : 0; }
double vanalbada(double a, double b) { return a * b > 0 ? a * b * (a + b) / (a * a + b * b) : 0; }
double zero(double, double) { return 0; }
template <class L>
void limiter(double (*ref)(double, double))
{
    L const s;
    double const a = hv_sym("dR");
    double const b = hv_sym("dL");
    hv_eq("published limiter", s(a, b), ref(a, b));
    hv_eq("symmetric in its arguments", s(a, b), s(b, a));
    hv_eq("odd", s(-a, -b), -s(a, b));
    if (a * b <= 0) {
        hv_eq("flat at extrema", s(a, b), 0);
    }
}
struct AnyLimiter
{
    double operator()(double r, double l) const noexcept { return hv_fn2("limiter", r, l); }
};
}
extern "C" {
void lim_minmod() { limiter<Minmod>(minmod); }
void lim_vanleer() { limiter<VanLeer>(vanleer); }
void lim_vanalbada() { limiter<VanAlbada>(vanalbada); }
void lim_constant() { limiter<Constant>(zero); }
}
#include "world.hpp"
extern "C" void recon_linear()
{
    using namespace world;
    for (int g = 0; g < 2; ++g) {
        Box const b = box(2, g);
        Range const r = range(b);
        KV_double_3d const var = hv_view<KV_double_3d>("var");
        KV_double_5d const rec = hv_view<KV_double_5d>("rec");
        LimitedLinearReconstruction<AnyLimiter> lr((AnyLimiter()));
        IFaceReconstruction const& ifr = lr;
        ifr.execute(r, grid(), var, rec);
        Cell const c = cell(b);
        for (int d = 0; d < ndim; ++d) {
            Cell const m = shift(c, d, -1);
            Cell const p = shift(c, d, 1);
            double const h = dx(grid(), c, d);
            double const hm = dx(grid(), m, d);
            double const hp = dx(grid(), p, d);
            double const s = hv_fn2("limiter", (at(var, p) - at(var, c)) / ((h + hp) / 2), (at(var, c) - at(var, m)) / ((hm + h) / 2));
            hv_eq("left face value", at(rec, c, 0, d), at(var, c) - s * h / 2);
            hv_eq("right face value", at(rec, c, 1, d), at(var, c) + s * h / 2);
        }
    }
}
extern "C" void recon_factory()
{
    // the configured name selects the limiter of that name; any other name is rejected
    using namespace world;
    Box const b = box(2, 1);
    Range const r = range(b);
    KV_double_3d const var = hv_view<KV_double_3d>("var");
    std::string names[] = {"Constant", "VanLeer", "Minmod", "VanAlbada"};
    double (*refs[])(double, double) = {zero, vanleer, minmod, vanalbada};
    Cell const c = cell(b);
    for (int q = 0; q < 4; ++q) {
        KV_double_5d const rec = hv_view<KV_double_5d>("rec");
        factory_face_reconstruction(names[q])->execute(r, grid(), var, rec);
        double const h = grid().dx0(c.x[0]);
        double const hm = grid().dx0(c.x[0] - 1);
        double const hp = grid().dx0(c.x[0] + 1);
        double const R = (at(var, shift(c, 0, 1)) - at(var, c)) / ((h + hp) / 2);
        double const L = (at(var, c) - at(var, shift(c, 0, -1))) / ((hm + h) / 2);
        hv_eq(names[q].c_str(), at(rec, c, 1, 0), at(var, c) + refs[q](R, L) * h / 2);
    }
}
extern "C" void recon_unknown()
{
    std::string s;
    hv_strsym(&s, "name");
    hv_expect_throw(!(s == "Constant" || s == "VanLeer" || s == "Minmod" || s == "VanAlbada"));
    factory_face_reconstruction(s);
}
