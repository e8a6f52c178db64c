// Output, restart and index files.
#include <array>
#include <string>
#include <utility>
#include <vector>
#include <config.yaml.hpp>
#include <git_version.hpp>
#include <grid.hpp>
#include <hdf5.h>
#include <io.hpp>
#include <io_hdf5.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>
#include "any.hpp"
#include "world.hpp"
#ifndef HV_NFX
#define HV_NFX 2
#endif
#ifndef HV_RECORDS
#define HV_RECORDS 2
#endif
using namespace hclpp;
using namespace world;
namespace {
struct World
{
    Grid& g;
    Param& param;
    Cell c;
    int glob[3];
    World() : g(*static_cast<Grid*>(hv_obj("grid"))), param(*static_cast<Param*>(hv_obj("param")))
    {
        Box const bx = box(2, 0);
        allocate(g, bx, range(bx));
        param.nfx = HV_NFX;
        static char const* const nn[] = {"glob0", "glob1", "glob2"};
        for (int d = 0; d < 3; ++d) {
            g.Nx_glob_ng[d] = glob[d] = (int)isym_ge(nn[d], 1);
            hv_fact(glob[d] - g.range.Corner_max[d]);
        }
        c = cell(bx);
        hv_note("cell", (long)c.x[0], (long)c.x[1], (long)c.x[2]);
        for (int d = 0; d < 3; ++d) {
            static char const* const mm[] = {"m0", "m1", "m2"};
            long const m = isym_ge(mm[d], 0);
            hv_fact(glob[d] + 2 * g.Nghost[d] - m);
            hv_note("node", (long)d, m);
            hv_note("size", (long)bx.n[d], (long)(c.x[d] - bx.lo[d]), (long)(g.range.Corner_min[d] + c.x[d] - bx.lo[d]), (long)glob[d], (long)g.Nghost[d]);
        }
    }
    KDV_double_3d field(char const* n) const { return KDV_double_3d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]); }
    KDV_double_4d field(char const* n, int m) const { return KDV_double_4d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], m); }
    KDV_double_1d nodes(char const* n, int d) const { return KDV_double_1d(n, glob[d] + (2 * g.Nghost[d]) + 1); }
};
std::string str(char const* n)
{
    std::string s;
    hv_strsym(&s, n);
    hv_fact(1000000 - (long)s.size());
    return s;
}
template <class V>
void note(char const* n, V const& v)
{
    hv_note("view", n, v(host, read_only).data());
}
} // namespace
extern "C" {
void description() { hv_note("description", io_config); }
void output()
{
    World w;
    KDV_double_3d const rho = w.field("rho");
    KDV_double_3d const P = w.field("P");
    KDV_double_3d const E = w.field("E");
    KDV_double_3d const T = w.field("T");
    KDV_double_4d const u = w.field("u", ndim);
    KDV_double_4d const fx = w.field("fx", HV_NFX);
    KDV_double_1d const x0 = w.nodes("x0", 0);
    KDV_double_1d const x1 = w.nodes("x1", 1);
    KDV_double_1d const x2 = w.nodes("x2", 2);
    Kokkos::deep_copy(rho(device, discard_write), hv_view<KV_double_3d>("rho0"));
    Kokkos::deep_copy(P(device, discard_write), hv_view<KV_double_3d>("P0"));
    Kokkos::deep_copy(E(device, discard_write), hv_view<KV_double_3d>("E0"));
    Kokkos::deep_copy(T(device, discard_write), hv_view<KV_double_3d>("T0"));
    Kokkos::deep_copy(u(device, discard_write), hv_view<KV_double_4d>("u0"));
    Kokkos::deep_copy(fx(device, discard_write), hv_view<KV_double_4d>("fx0"));
    Kokkos::deep_copy(x0(device, discard_write), hv_view<KV_double_1d>("x00"));
    Kokkos::deep_copy(x1(device, discard_write), hv_view<KV_double_1d>("x10"));
    Kokkos::deep_copy(x2(device, discard_write), hv_view<KV_double_1d>("x20"));
    std::string const directory = str("directory");
    std::string const prefix = str("prefix");
    int const output_id = (int)isym_ge("output_id", 0);
    int const iter_output_id = (int)isym_ge("iter_output_id", -1);
    int const time_output_id = (int)isym_ge("time_output_id", -1);
    int const iter = (int)isym_ge("iter", 0);
    double const t = hv_sym("t");
    double const gamma = hv_sym("gamma");
    hv_note("scalar", "output_id", (long)output_id);
    hv_note("scalar", "iter_output_id", (long)iter_output_id);
    hv_note("scalar", "time_output_id", (long)time_output_id);
    hv_note("scalar", "iter", (long)iter);
    hv_note("scalar", "current_time", t);
    hv_note("scalar", "gamma", gamma);
    hv_note("rank", (long)w.g.mpi_rank);
    hv_note("comm", w.g.comm_cart);
    write_pdi_init(w.g, w.param);
    write_pdi(directory, prefix, output_id, iter_output_id, time_output_id, iter, t, gamma, w.g, rho.const_view(), u.const_view(), P.const_view(), E.const_view(), x0.const_view(), x1.const_view(),
            x2.const_view(), fx.const_view(), T.const_view());
    note("rho", rho);
    note("P", P);
    note("E", E);
    note("T", T);
    note("u", u);
    note("fx", fx);
    note("x0", x0);
    note("x1", x1);
    note("x2", x2);
    hv_note("attribute", "git_build_string", (long)git_build_string.size(), git_build_string.data());
    hv_note("attribute", "git_branch", (long)git_branch.size(), git_branch.data());
    hv_note("attribute", "compile_date", (long)compile_date.size(), compile_date.data());
    hv_note("attribute", "compile_time", (long)compile_time.size(), compile_time.data());
    hv_true("the output is written", true);
}
void restart()
{
    World w;
    KDV_double_3d const rho = w.field("rho");
    KDV_double_3d const P = w.field("P");
    KDV_double_4d const u = w.field("u", ndim);
    KDV_double_4d const fx = w.field("fx", HV_NFX);
    KDV_double_1d const x0 = w.nodes("x0", 0);
    KDV_double_1d const x1 = w.nodes("x1", 1);
    KDV_double_1d const x2 = w.nodes("x2", 2);
    int output_id = -1;
    int iter_output_id = -1;
    int time_output_id = -1;
    int iter = 0;
    double t = hv_sym("t");
    write_pdi_init(w.g, w.param);
    hv_note("comm", w.g.comm_cart);
    read_pdi(str("restart"), output_id, iter_output_id, time_output_id, iter, t, rho, u, P, fx, x0, x1, x2);
    hv_note("scalar", "output_id", (long)output_id);
    hv_note("scalar", "iter_output_id", (long)iter_output_id);
    hv_note("scalar", "time_output_id", (long)time_output_id);
    hv_note("scalar", "iter", (long)iter);
    hv_note("scalar", "current_time", t);
    hv_note("value", "rho", -1L, at(rho(device, read_only), w.c));
    hv_note("value", "P", -1L, at(P(device, read_only), w.c));
    for (int d = 0; d < ndim; ++d) {
        hv_note("value", "ux", (long)d, at(u(device, read_only), w.c, d));
    }
    for (int q = 0; q < HV_NFX; ++q) {
        hv_note("value", "fx", (long)q, at(fx(device, read_only), w.c, q));
    }
    KDV_double_1d const* const x[3] = {&x0, &x1, &x2};
    for (int d = 0; d < 3; ++d) {
        static char const* const mm[] = {"m0", "m1", "m2"};
        int const m = (int)hv_isym(mm[d]);
        hv_note("nodes", (long)d, (*x[d])(device, read_only)(m), (*x[d])(host, read_only)(m), (long)x[d]->extent_int(0));
    }
    note("rho", rho);
    note("P", P);
    note("u", u);
    note("fx", fx);
    note("x0", x0);
    note("x1", x1);
    note("x2", x2);
    hv_true("the restart is read", true);
}
void index_file()
{
    World w;
    KDV_double_1d const x0 = w.nodes("x0", 0);
    KDV_double_1d const x1 = w.nodes("x1", 1);
    KDV_double_1d const x2 = w.nodes("x2", 2);
    static char const* const tt[] = {"t0", "t1", "t2"};
    static char const* const ii[] = {"i0", "i1", "i2"};
    std::vector<std::pair<int, double>> record;
    for (int r = 0; r < HV_RECORDS; ++r) {
        record.emplace_back((int)hv_isym(ii[r]), hv_sym(tt[r]));
        hv_note("time", record[r].second);
    }
    int const output_id = (int)isym_ge("output_id", HV_RECORDS - 1);
    hv_note("scalar", "output_id", (long)output_id);
    hv_note("rank", (long)w.g.mpi_rank);
    XmlWriter const writer(str("directory"), str("prefix"), HV_NFX);
    writer(w.g, output_id, record, x0.const_view(), x1.const_view(), x2.const_view());
    hv_true("the index is written", true);
}
void extents1()
{
    RaiiH5Hid const file(::H5Fopen("file", H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
    check_extent_dset(file, "/x", std::array {(std::size_t)isym_ge("expected", 0)});
    hv_true("accepted", true);
}
void extents3()
{
    RaiiH5Hid const file(::H5Fopen("file", H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
    check_extent_dset(file, "/x", std::array {(std::size_t)isym_ge("expected0", 0), (std::size_t)isym_ge("expected1", 0), (std::size_t)isym_ge("expected2", 0)});
    hv_true("accepted", true);
}
}
