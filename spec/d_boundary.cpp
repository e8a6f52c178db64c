// Ghost cells: exchange between processes, physical boundary conditions, their order.
#include <memory>
#include <mpi.h>
#include <boundary.hpp>
#include <boundary_distribute.hpp>
#include <boundary_factory.hpp>
#include <param.hpp>
#include "any.hpp"
#include "world.hpp"
using namespace hclpp;
using namespace world;
namespace {
struct AnyGravity
{
    double operator()(int i, int j, int k, int d) const noexcept { return hv_fn("gravity", (long)i, (long)j, (long)k, (long)d); }
};
using Bcs = std::array<std::unique_ptr<IBoundaryCondition<AnyGravity>>, nfaces>;
// arbitrary fields of a block of n cells plus ghost layers
struct Fields
{
    int n[3];
    int g[3];
    int N[3];
    int nfx;
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
};
template <class V>
V nbr(char const* name, long a, long b, long c)
{
    return V(typename V::HVRaw {}, hv_nbr(name, a, b, c));
}
Fields fields(int ng, int nfx)
{
    Fields f;
    f.nfx = nfx;
    for (int d = 0; d < 3; ++d) {
        f.n[d] = (int)hv_nbr_size(d, 0);
        f.g[d] = d < ndim ? ng : 0;
        f.N[d] = f.n[d] + 2 * f.g[d];
        for (int o = -1; o < 2; ++o) {
            hv_fact(hv_nbr_size(d, o) - (d < ndim ? ng : 1));
            hv_fact(hv_nbr_size(d, o) - 1);
        }
    }
    int const* const N = f.N;
    f.rho = KV_double_3d("rho", N[0], N[1], N[2]);
    f.E = KV_double_3d("E", N[0], N[1], N[2]);
    f.rhou = KV_double_4d("rhou", N[0], N[1], N[2], ndim);
    f.fx = KV_double_4d("fx", N[0], N[1], N[2], f.nfx);
    Kokkos::deep_copy(f.rho, nbr<KV_double_3d>("rho", 0, 0, 0));
    Kokkos::deep_copy(f.E, nbr<KV_double_3d>("E", 0, 0, 0));
    Kokkos::deep_copy(f.rhou, nbr<KV_double_4d>("rhou", 0, 0, 0));
    Kokkos::deep_copy(f.fx, nbr<KV_double_4d>("fx", 0, 0, 0));
    return f;
}
Grid& agrid(Fields const& f, int ng)
{
    Grid& g = const_cast<Grid&>(grid());
    g.Ng = ng;
    for (int d = 0; d < 3; ++d) {
        g.Nghost[d] = f.g[d];
        g.Nx_local_ng[d] = f.n[d];
        g.Nx_local_wg[d] = f.N[d];
    }
    return g;
}
Cell anycell(Fields const& f)
{
    static char const* const ii[] = {"i", "j", "k"};
    Cell c;
    for (int d = 0; d < 3; ++d) {
        c.x[d] = (int)isym_ge(ii[d], 0);
        hv_fact(f.N[d] - 1 - c.x[d]);
    }
    return c;
}
int anyscalar(Fields const& f)
{
    int const s = (int)isym_ge("s", 0);
    hv_fact(f.nfx - 1 - s);
    return s;
}
char const* const bname[] = {"border0", "border1", "border2", "border3", "border4", "border5"};
struct Nothing : IBoundaryCondition<AnyGravity>
{
    Nothing(int d, int s) : IBoundaryCondition<AnyGravity>(d, s) {}
    void execute(Grid const&, AnyGravity const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) const final {}
};
struct Probe : IBoundaryCondition<AnyGravity>
{
    Probe(int d, int s) : IBoundaryCondition<AnyGravity>(d, s) {}
    void execute(Grid const&, AnyGravity const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) const final
    {
        hv_note("apply", (long)(2 * this->bc_idim() + this->bc_iface()));
    }
};
template <class B>
Bcs every()
{
    Bcs b;
    for (int d = 0; d < ndim; ++d) {
        for (int s = 0; s < 2; ++s) {
            b[2 * d + s] = std::make_unique<B>(d, s);
        }
    }
    return b;
}
Param& param() { return *static_cast<Param*>(hv_obj("param")); }
// value after the exchange: the field of the process that owns the cell
template <class V, class... C>
double owner(char const* name, Fields const& f, Cell const& c, C... comp)
{
    double r = 0;
    int const m[3] = {1, ndim > 1, ndim > 2};
    for (int a = -m[0]; a <= m[0]; ++a) {
        for (int b = -m[1]; b <= m[1]; ++b) {
            for (int e = -m[2]; e <= m[2]; ++e) {
                int const o[3] = {a, b, e};
                Cell q = c;
                bool in = true;
                for (int d = 0; d < 3; ++d) {
                    bool const low = c.x[d] < f.g[d];
                    bool const high = c.x[d] >= f.g[d] + f.n[d];
                    in = in && (o[d] < 0 ? low : o[d] > 0 ? high : !(low || high));
                    q.x[d] += o[d] < 0 ? (int)hv_nbr_size(d, -1) : o[d] > 0 ? -f.n[d] : 0;
                }
                double const v = at(nbr<V>(name, a, b, e), q, comp...);
                r = in ? v : r;
            }
        }
    }
    return r;
}
void exchange(int ng, int nfx, bool aware)
{
    Fields const f = fields(ng, nfx);
    Grid& g = agrid(f, ng);
    param().nfx = f.nfx;
    param().bc_priority = "";
    param().mpi_device_aware = aware;
    DistributedBoundaryCondition const bc(g, param());
    bc(every<Nothing>(), g, AnyGravity {}, f.rho, f.rhou, f.E, f.fx);
    Cell const c = anycell(f);
    hv_eq("density", at(f.rho, c), owner<KV_double_3d>("rho", f, c));
    hv_eq("energy", at(f.E, c), owner<KV_double_3d>("E", f, c));
    for (int q = 0; q < ndim; ++q) {
        hv_eq("momentum", at(f.rhou, c, q), owner<KV_double_4d>("rhou", f, c, q));
    }
    for (int s = 0; s < nfx; ++s) {
        hv_eq("passive scalar", at(f.fx, c, s), owner<KV_double_4d>("fx", f, c, s));
    }
}
template <class B>
void physical(int dim, int side, bool mirror, bool fill = true)
{
    int const ng = 2;
    Fields const f = fields(ng, (int)isym_ge("nfx", 0));
    Grid& g = agrid(f, ng);
    std::unique_ptr<IBoundaryCondition<AnyGravity>> const b = std::make_unique<B>(dim, side);
    b->execute(g, AnyGravity {}, f.rho, f.rhou, f.E, f.fx);
    Cell const c = anycell(f);
    int const x = c.x[dim];
    int const n = f.n[dim];
    bool const ghost = side == 0 ? x < ng : x >= n + ng;
    Cell from = c;
    if (ghost && fill) {
        from.x[dim] = mirror ? (side == 0 ? 2 * ng - 1 - x : 2 * (n + ng) - 1 - x) : (side == 0 ? ng : n + ng - 1);
    }
    int const s = anyscalar(f);
    hv_eq("density", at(f.rho, c), at(nbr<KV_double_3d>("rho", 0, 0, 0), from));
    hv_eq("energy", at(f.E, c), at(nbr<KV_double_3d>("E", 0, 0, 0), from));
    hv_eq("passive scalar", at(f.fx, c, s), at(nbr<KV_double_4d>("fx", 0, 0, 0), from, s));
    for (int q = 0; q < ndim; ++q) {
        double const v = at(nbr<KV_double_4d>("rhou", 0, 0, 0), from, q);
        hv_eq("momentum", at(f.rhou, c, q), mirror && q == dim && ghost ? -v : v);
    }
}
} // namespace
extern "C" {
void halo1() { exchange(1, 1, false); }
void halo2_aware() { exchange(2, 2, true); }
void halo2() { exchange(2, 2, false); }
void halo3() { exchange(3, 0, false); }
#define FACES(D) \
    void null_##D##_left() { physical<NullGradient<AnyGravity>>(D, 0, false); } \
    void null_##D##_right() { physical<NullGradient<AnyGravity>>(D, 1, false); } \
    void periodic_##D##_left() { physical<PeriodicCondition<AnyGravity>>(D, 0, false, false); } \
    void periodic_##D##_right() { physical<PeriodicCondition<AnyGravity>>(D, 1, false, false); } \
    void reflex_##D##_left() { physical<ReflexiveCondition<AnyGravity>>(D, 0, true); } \
    void reflex_##D##_right() { physical<ReflexiveCondition<AnyGravity>>(D, 1, true); }
FACES(0)
FACES(1)
FACES(2)
// the order the conditions are applied in
void bc_order()
{
    Fields f;
    f.nfx = 0;
    for (int d = 0; d < 3; ++d) {
        f.n[d] = 1;
        f.g[d] = d < ndim ? 1 : 0;
        f.N[d] = f.n[d] + 2 * f.g[d];
    }
    Grid& g = agrid(f, 1);
    f.rho = KV_double_3d("rho", f.N[0], f.N[1], f.N[2]);
    f.E = KV_double_3d("E", f.N[0], f.N[1], f.N[2]);
    f.rhou = KV_double_4d("rhou", f.N[0], f.N[1], f.N[2], ndim);
    f.fx = KV_double_4d("fx", f.N[0], f.N[1], f.N[2], 0);
    param().nfx = 0;
    param().mpi_device_aware = true;
    hv_strsym(&param().bc_priority, "priority");
    for (int d = 0; d < ndim; ++d) {
        for (int s = 0; s < 2; ++s) {
            g.is_border[d][s] = hv_bsym(bname[2 * d + s]);
        }
    }
    DistributedBoundaryCondition const bc(g, param());
    bc(every<Probe>(), g, AnyGravity {}, f.rho, f.rhou, f.E, f.fx);
    for (int d = 0; d < ndim; ++d) {
        for (int s = 0; s < 2; ++s) {
            hv_note("border", (long)(2 * d + s), (long)hv_bsym(bname[2 * d + s]));
        }
    }
}
}
