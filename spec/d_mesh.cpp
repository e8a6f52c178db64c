// Cell volumes and face areas, node coordinates, sub-domain ranges, decomposition over processes.
#include <cmath>
#include <memory>
#include <mpi.h>
#include <geom.hpp>
#include <geometry.hpp>
#include <geometry_factory.hpp>
#include <grid_type.hpp>
#include "hv.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
constexpr double PI = 3.14159265358979323846;
double sq(double x) { return x * x; }
double cube(double x) { return x * x * x; }
struct Metric
{
    double v;
    double s[3];
};
// exact measures of the cell [a0,b0]x[a1,b1]x[a2,b2] and of its lower faces (missing angles are complete)
Metric metric(double a0, double b0, double a1, double b1, double a2, double b2)
{
    if (geom == Geometry::Geom_cartesian) {
        double const d0 = b0 - a0, d1 = b1 - a1, d2 = b2 - a2;
        return {d0 * d1 * d2, {d1 * d2, d0 * d2, d0 * d1}};
    }
    double const polar = ndim == 1 ? 2 : std::cos(a1) - std::cos(b1);
    double const azim = ndim == 3 ? b2 - a2 : 2 * PI;
    double const dtheta = b1 - a1;
    return {(cube(b0) - cube(a0)) / 3 * polar * azim, {sq(a0) * polar * azim, (sq(b0) - sq(a0)) / 2 * std::sin(a1) * azim, (sq(b0) - sq(a0)) / 2 * dtheta}};
}
Box ghosts()
{
    int const ng = 2;
    int const gh = (int)isym_ge("gh", 0);
    hv_fact(ng - gh);
    return box(ng, gh);
}
} // namespace
extern "C" {
void geometry_measures()
{
    Box const b = ghosts();
    Cell const c = cell(b);
    Range const r = range(b);
    auto const x0 = hv_view<KV_cdouble_1d>("x0"), x1 = hv_view<KV_cdouble_1d>("x1"), x2 = hv_view<KV_cdouble_1d>("x2");
    auto const h0 = hv_view<KV_double_1d>("h0"), h1 = hv_view<KV_double_1d>("h1"), h2 = hv_view<KV_double_1d>("h2");
    auto const ds = hv_view<KV_double_4d>("ds");
    auto const dv = hv_view<KV_double_3d>("dv");
    int const i = c.x[0], j = c.x[1], k = c.x[2];
    // the widths handed over are those of the nodes
    h0(i) = x0(i + 1) - x0(i);
    h1(j) = x1(j + 1) - x1(j);
    h2(k) = x2(k + 1) - x2(k);
    factory_grid_geometry()->execute(r, x0, x1, x2, h0, h1, h2, ds, dv);
    Metric const m = metric(x0(i), x0(i + 1), x1(j), x1(j + 1), x2(k), x2(k + 1));
    hv_eq("volume", at(dv, c), m.v);
    static char const* const what[] = {"area of the lower x0 face", "area of the lower x1 face", "area of the lower x2 face"};
    for (int d = 0; d < ndim; ++d) {
        hv_eq(what[d], at(ds, c, d), m.s[d]);
    }
}
void grid_coordinates()
{
    Grid& g = const_cast<Grid&>(grid());
    auto const a = hv_view<KV_cdouble_1d>("g0"), b = hv_view<KV_cdouble_1d>("g1"), e = hv_view<KV_cdouble_1d>("g2");
    Box bx = box(2, 2);
    Range const r = range(bx);
    Cell const c = cell(bx);
    allocate(g, bx, r);
    g.set_grid(a, b, e);
    int const* const o = g.range.Corner_min.data();
    int const* const x = c.x;
    hv_eq("x0 lower node", g.x0(x[0]), a(o[0] + x[0]));
    hv_eq("x1 lower node", g.x1(x[1]), b(o[1] + x[1]));
    hv_eq("x2 lower node", g.x2(x[2]), e(o[2] + x[2]));
    hv_eq("x0 upper node", g.x0(x[0] + 1), a(o[0] + x[0] + 1));
    hv_eq("x1 upper node", g.x1(x[1] + 1), b(o[1] + x[1] + 1));
    hv_eq("x2 upper node", g.x2(x[2] + 1), e(o[2] + x[2] + 1));
    hv_eq("x0 centre", g.x0_center(x[0]), (a(o[0] + x[0]) + a(o[0] + x[0] + 1)) / 2);
    hv_eq("x1 centre", g.x1_center(x[1]), (b(o[1] + x[1]) + b(o[1] + x[1] + 1)) / 2);
    hv_eq("x2 centre", g.x2_center(x[2]), (e(o[2] + x[2]) + e(o[2] + x[2] + 1)) / 2);
    hv_eq("x0 width", g.dx0(x[0]), a(o[0] + x[0] + 1) - a(o[0] + x[0]));
    hv_eq("x1 width", g.dx1(x[1]), b(o[1] + x[1] + 1) - b(o[1] + x[1]));
    hv_eq("x2 width", g.dx2(x[2]), e(o[2] + x[2] + 1) - e(o[2] + x[2]));
    Metric const m = metric(a(o[0] + x[0]), a(o[0] + x[0] + 1), b(o[1] + x[1]), b(o[1] + x[1] + 1), e(o[2] + x[2]), e(o[2] + x[2] + 1));
    hv_eq("volume", at(g.dv, c), m.v);
    static char const* const what[] = {"area of the lower x0 face", "area of the lower x1 face", "area of the lower x2 face"};
    for (int d = 0; d < ndim; ++d) {
        hv_eq(what[d], at(g.ds, c, d), m.s[d]);
    }
}
void regular_mesh()
{
    static char const* const nn[] = {"N0", "N1", "N2"};
    static char const* const mn[] = {"min0", "min1", "min2"};
    static char const* const mx[] = {"max0", "max1", "max2"};
    std::array<int, 3> ng {0, 0, 0};
    std::array<int, 3> n;
    std::array<double, 3> lo;
    std::array<double, 3> hi;
    for (int d = 0; d < 3; ++d) {
        if (d < ndim) {
            ng[d] = (int)isym_ge("ng", 0);
        }
        n[d] = (int)isym_ge(nn[d], 1);
        lo[d] = hv_sym(mn[d]);
        hi[d] = hv_sym(mx[d]);
    }
    KVH_double_1d const x[3] = {KVH_double_1d("x0", n[0] + 2 * ng[0] + 1), KVH_double_1d("x1", n[1] + 2 * ng[1] + 1), KVH_double_1d("x2", n[2] + 2 * ng[2] + 1)};
    Regular(lo, hi).execute(ng, n, x[0], x[1], x[2]);
    static char const* const pn[] = {"p0", "p1", "p2"};
    for (int d = 0; d < 3; ++d) {
        int const p = (int)isym_ge(pn[d], 0);
        hv_fact(n[d] + 2 * ng[d] - p);
        hv_eq("node position", x[d](p), lo[d] + (p - ng[d]) * ((hi[d] - lo[d]) / n[d]));
        hv_eq("first interior node is the lower bound", x[d](ng[d]), lo[d]);
        hv_eq("last interior node is the upper bound", x[d](ng[d] + n[d]), hi[d]);
    }
}
}
namespace {
std::array<int, 3> anyint3(char const* const* n, long lo)
{
    std::array<int, 3> r;
    for (int d = 0; d < 3; ++d) {
        r[d] = (int)isym_ge(n[d], lo);
    }
    return r;
}
constexpr char const* const Nn[] = {"N0", "N1", "N2"};
constexpr char const* const Dn[] = {"D0", "D1", "D2"};
} // namespace
extern "C" {
// two processes that are neighbours along every direction
void blocks_adjacent()
{
    auto const n = anyint3(Nn, 1);
    auto const d = anyint3(Dn, 0);
    Grid const a(n, d, 2);
    Grid const b(n, d, 2);
    for (int k = 0; k < 3; ++k) {
        hv_let(b.mpi_rank_cart[k], a.mpi_rank_cart[k] + 1);
        hv_eqi("the block of the next process starts where this one ends", b.range.Corner_min[k], a.range.Corner_max[k]);
    }
}
void blocks_first()
{
    auto const n = anyint3(Nn, 1);
    auto const d = anyint3(Dn, 0);
    Grid const a(n, d, 2);
    for (int k = 0; k < 3; ++k) {
        hv_let(a.mpi_rank_cart[k], 0);
        hv_eqi("the first block starts at 0", a.range.Corner_min[k], 0);
        hv_eqb("the first process owns the lower border", a.is_border[k][0], true);
    }
}
void blocks_last()
{
    auto const n = anyint3(Nn, 1);
    auto const d = anyint3(Dn, 0);
    Grid const a(n, d, 2);
    for (int k = 0; k < 3; ++k) {
        hv_let(a.mpi_rank_cart[k], a.mpi_dims_cart[k] - 1);
        hv_eqi("the last block ends at the number of cells", a.range.Corner_max[k], n[k]);
        hv_eqb("the last process owns the upper border", a.is_border[k][1], true);
    }
}
void blocks_any()
{
    auto const n = anyint3(Nn, 1);
    auto const d = anyint3(Dn, 0);
    int const ng = (int)isym_ge("ng", 0);
    hv_expect_throw(false);
    Grid const a(n, d, ng);
    Grid const b(n, d, ng);
    for (int k = 0; k < 3; ++k) {
        int const g = k < ndim ? ng : 0;
        int const m = a.range.Corner_max[k] - a.range.Corner_min[k];
        hv_eqi("global size", a.Nx_glob_ng[k], n[k]);
        hv_eqi("size of the block", a.Nx_local_ng[k], m);
        hv_eqi("ghost layers", a.Nghost[k], g);
        hv_eqi("size with ghost layers", a.Nx_local_wg[k], m + 2 * g);
        hv_eqi("range: ghost layers", a.range.Nghost[k], g);
        hv_eqb("lower border exactly for the first process", a.is_border[k][0], a.mpi_rank_cart[k] == 0);
        hv_eqb("upper border exactly for the last process", a.is_border[k][1], a.mpi_rank_cart[k] == a.mpi_dims_cart[k] - 1);
        int const o = b.range.Corner_max[k] - b.range.Corner_min[k];
        hv_true("blocks are balanced to one cell", m - o <= 1 && o - m <= 1);
        if (k >= ndim) {
            hv_eqi("no decomposition along inactive directions", a.mpi_dims_cart[k], 1);
        }
    }
    hv_eqi("range: ghost count", a.range.Ng, ng);
    hv_eqi("ghost count", a.Ng, ng);
    KV_double_1d const* const node[] = {&a.x0, &a.x1, &a.x2};
    KV_double_1d const* const cen[] = {&a.x0_center, &a.x1_center, &a.x2_center};
    KV_double_1d const* const wid[] = {&a.dx0, &a.dx1, &a.dx2};
    for (int k = 0; k < 3; ++k) {
        hv_eqi("nodes", node[k]->extent_int(0), a.Nx_local_wg[k] + 1);
        hv_eqi("centres", cen[k]->extent_int(0), a.Nx_local_wg[k]);
        hv_eqi("widths", wid[k]->extent_int(0), a.Nx_local_wg[k]);
        hv_eqi("volumes", a.dv.extent_int(k), a.Nx_local_wg[k]);
        hv_eqi("areas", a.ds.extent_int(k), a.Nx_local_wg[k]);
    }
}
void grid_life()
{
    auto const n = anyint3(Nn, 1);
    auto const d = anyint3(Dn, 0);
    Grid const a(n, d, 2);
}
void range_construct()
{
    static char const* const an[] = {"a0", "a1", "a2"};
    static char const* const bn[] = {"b0", "b1", "b2"};
    std::array<int, 3> a;
    std::array<int, 3> b;
    bool bad = false;
    for (int d = 0; d < 3; ++d) {
        a[d] = (int)hv_isym(an[d]);
        b[d] = (int)hv_isym(bn[d]);
        bad = bad || a[d] < 0 || b[d] < a[d];
    }
    hv_expect_throw(bad);
    Range const r(a, b, (int)isym_ge("ng", 0));
    for (int d = 0; d < 3; ++d) {
        hv_eqi("lower corner", r.Corner_min[d], a[d]);
        hv_eqi("upper corner", r.Corner_max[d], b[d]);
    }
}
void range_members()
{
    std::array<int, 3> a;
    std::array<int, 3> b;
    static char const* const an[] = {"a0", "a1", "a2"};
    static char const* const mn[] = {"m0", "m1", "m2"};
    for (int d = 0; d < 3; ++d) {
        a[d] = (int)isym_ge(an[d], 0);
        b[d] = a[d] + (int)isym_ge(mn[d], 0);
    }
    int const ng = (int)isym_ge("ng", 0);
    Range const r(a, b, ng);
    Range const q({a[0], b[0]}, {a[1], b[1]}, {a[2], b[2]}, ng);
    auto const bare = cell_range(r);
    hv_eqi("ghost count", r.Ng, ng);
    for (int d = 0; d < 3; ++d) {
        int const g = d < ndim ? ng : 0;
        int const o = d < ndim ? 1 : 0;
        int const n = b[d] - a[d];
        hv_eqi("ghost layers", r.Nghost[d], g);
        hv_eqi("iterated cells: begin", bare[0][d], g);
        hv_eqi("iterated cells: end", bare[1][d], g + n);
        hv_eqi("cells, 0 ghost: begin", r.Nc_min_0g[d], g);
        hv_eqi("cells, 0 ghost: end", r.Nc_max_0g[d], g + n);
        hv_eqi("faces, 0 ghost: begin", r.Nf_min_0g[d], g);
        hv_eqi("faces, 0 ghost: end", r.Nf_max_0g[d], g + n + 1);
        hv_eqi("cells, 1 ghost: begin", r.Nc_min_1g[d], g - o);
        hv_eqi("cells, 1 ghost: end", r.Nc_max_1g[d], g + n + o);
        hv_eqi("faces, 1 ghost: begin", r.Nf_min_1g[d], g - o);
        hv_eqi("faces, 1 ghost: end", r.Nf_max_1g[d], g + n + o + 1);
        hv_eqi("cells, 2 ghosts: begin", r.Nc_min_2g[d], g - 2 * o);
        hv_eqi("cells, 2 ghosts: end", r.Nc_max_2g[d], g + n + 2 * o);
        hv_eqi("faces, 2 ghosts: begin", r.Nf_min_2g[d], g - 2 * o);
        hv_eqi("faces, 2 ghosts: end", r.Nf_max_2g[d], g + n + 2 * o + 1);
        hv_eqi("from intervals: lower corner", q.Corner_min[d], a[d]);
        hv_eqi("from intervals: upper corner", q.Corner_max[d], b[d]);
        hv_eqi("from intervals: ghost layers", q.Nghost[d], g);
    }
}
void range_ghosts()
{
    std::array<int, 3> a;
    std::array<int, 3> b;
    static char const* const an[] = {"a0", "a1", "a2"};
    static char const* const mn[] = {"m0", "m1", "m2"};
    for (int d = 0; d < 3; ++d) {
        a[d] = (int)isym_ge(an[d], 0);
        b[d] = a[d] + (int)isym_ge(mn[d], 0);
    }
    int const ng = (int)isym_ge("ng", 0);
    int const first = (int)isym_ge("first", 0);
    hv_fact(ng - first);
    int const gh = (int)isym_ge("gh", 0);
    hv_expect_throw(gh > ng);
    // whatever was iterated before
    Range const r = Range(a, b, ng).with_ghosts(first).with_ghosts(gh);
    auto const c = cell_range(r);
    auto const p = cell_mdrange(r);
    auto const all = cell_range(r.all_ghosts());
    auto const none = cell_range(r.no_ghosts());
    for (int d = 0; d < 3; ++d) {
        int const s = d < ndim ? ng : 0;
        int const g = d < ndim ? gh : 0;
        int const n = b[d] - a[d];
        hv_eqi("iterated cells: begin", c[0][d], s - g);
        hv_eqi("iterated cells: end", c[1][d], s + n + g);
        hv_eqi("policy: begin", p.m_lower[d], s - g);
        hv_eqi("policy: end", p.m_upper[d], s + n + g);
        hv_eqi("all ghosts: begin", all[0][d], 0);
        hv_eqi("all ghosts: end", all[1][d], n + 2 * s);
        hv_eqi("no ghosts: begin", none[0][d], s);
        hv_eqi("no ghosts: end", none[1][d], s + n);
        hv_eqi("corners are kept", r.Corner_min[d], a[d]);
        hv_eqi("corners are kept", r.Corner_max[d], b[d]);
    }
}
}
