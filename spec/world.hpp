// An arbitrary sub-domain: a Range with symbolic corners and an arbitrary cell of it.
#pragma once
#include <array>
#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <range.hpp>
#include "any.hpp"
namespace world {
using namespace hclpp;
inline long isym_ge(char const* name, long lo)
{
    long const v = hv_isym(name);
    hv_fact(v - lo);
    return v;
}
struct Box
{
    int lo[3];
    int hi[3]; // one past the end
    int n[3]; // cells without ghosts
    int ng;
    int geff;
};
// corners of the sub-domain; ng ghost layers, geff of them iterated over
inline Box box(int ng, int geff)
{
    static char const* const nn[] = {"n0", "n1", "n2"};
    Box b;
    b.ng = ng;
    b.geff = geff;
    for (int d = 0; d < 3; ++d) {
        b.n[d] = static_cast<int>(isym_ge(nn[d], 1));
        b.lo[d] = d < ndim ? ng - geff : 0;
        b.hi[d] = b.n[d] + (d < ndim ? ng + geff : 0);
    }
    return b;
}
inline Range range(Box const& b)
{
    static char const* const cc[] = {"c0", "c1", "c2"};
    std::array<int, 3> lo;
    std::array<int, 3> hi;
    for (int d = 0; d < 3; ++d) {
        lo[d] = static_cast<int>(isym_ge(cc[d], 0));
        hi[d] = lo[d] + b.n[d];
    }
    return Range(lo, hi, b.ng).with_ghosts(b.geff);
}
struct Cell
{
    int x[3];
};
// an arbitrary cell of the box
inline Cell cell(Box const& b)
{
    static char const* const ii[] = {"i", "j", "k"};
    Cell c;
    for (int d = 0; d < 3; ++d) {
        c.x[d] = static_cast<int>(isym_ge(ii[d], b.lo[d]));
        hv_fact(b.hi[d] - 1 - c.x[d]);
    }
    return c;
}
inline Cell shift(Cell c, int d, int s)
{
    c.x[d] += s;
    return c;
}
inline Grid const& grid() { return *static_cast<Grid const*>(hv_obj("grid")); }
template <class V>
double at(V const& v, Cell const& c) { return v(c.x[0], c.x[1], c.x[2]); }
template <class V>
double at(V const& v, Cell const& c, int a) { return v(c.x[0], c.x[1], c.x[2], a); }
template <class V>
double at(V const& v, Cell const& c, int a, int b) { return v(c.x[0], c.x[1], c.x[2], a, b); }
template <class V>
double at(V const& v, Cell const& c, int a, int b, int e) { return v(c.x[0], c.x[1], c.x[2], a, b, e); }
// the array has storage for the cell
template <class V>
void covers(V const& v, Cell const& c)
{
    for (int d = 0; d < 3; ++d) {
        hv_fact(v.extent_int(d) - 1 - c.x[d]);
    }
}
// the block of a process with its arrays, as the constructor makes them
inline void allocate(Grid& g, Box const& bx, Range const& r)
{
    g.range = r.no_ghosts();
    g.Ng = bx.ng;
    int hi[3];
    for (int d = 0; d < 3; ++d) {
        g.Nx_local_ng[d] = bx.n[d];
        g.Nghost[d] = d < ndim ? bx.ng : 0;
        g.Nx_local_wg[d] = bx.n[d] + 2 * g.Nghost[d];
        hi[d] = g.Nx_local_wg[d];
    }
    // arrays as the constructor allocates them
    g.x0 = KV_double_1d("x0", hi[0] + 1);
    g.x1 = KV_double_1d("x1", hi[1] + 1);
    g.x2 = KV_double_1d("x2", hi[2] + 1);
    g.x0_center = KV_double_1d("x0_center", hi[0]);
    g.x1_center = KV_double_1d("x1_center", hi[1]);
    g.x2_center = KV_double_1d("x2_center", hi[2]);
    g.dx0 = KV_double_1d("dx0", hi[0]);
    g.dx1 = KV_double_1d("dx1", hi[1]);
    g.dx2 = KV_double_1d("dx2", hi[2]);
    g.ds = KV_double_4d("ds", hi[0], hi[1], hi[2], 3);
    g.dv = KV_double_3d("dv", hi[0], hi[1], hi[2]);
}
inline void same(long a, long b)
{
    hv_fact(a - b);
    hv_fact(b - a);
}
// width of the cell along d
inline double dx(Grid const& g, Cell const& c, int d)
{
    return d == 0 ? g.dx0(c.x[0]) : d == 1 ? g.dx1(c.x[1]) : g.dx2(c.x[2]);
}
} // namespace world
