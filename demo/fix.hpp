#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <unistd.h>
#include <mpi.h>
#include <inih/INIReader.hpp>
#include <Kokkos_Core.hpp>
#include <grid.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <geom.hpp>
#include <param.hpp>
#include <range.hpp>
using namespace hclpp;
namespace fix {
inline int fails = 0;
inline void check(bool ok, char const* what)
{
    if (!ok) {
        std::printf("FAILED: %s\n", what);
        ++fails;
    }
}
inline void near(double a, double b, char const* what, double tol = 1e-12)
{
    if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)))) {
        std::printf("FAILED: %s: %.17g instead of %.17g\n", what, a, b);
        ++fails;
    }
}
// parameters from text, through a scratch file
inline INIReader ini(std::string const& s)
{
    char n[] = "/tmp/demoXXXXXX";
    int const fd = mkstemp(n);
    FILE* f = fdopen(fd, "w");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
    INIReader r {std::string(n)};
    unlink(n);
    return r;
}
inline std::string base(int n0, int n1, int n2)
{
    char b[400];
    std::snprintf(
            b, sizeof b, "[Grid]\nNghost=2\nNx_glob=%d\nNy_glob=%d\nNz_glob=%d\nxmin=0.5\nxmax=1.5\nymin=0.4\nymax=1.4\nzmin=0\nzmax=1\n[Passive Scalar]\nnfx=0\n", n0,
            n1, n2);
    return b;
}
// smooth, stretched coordinates
inline KV_double_1d coords(char const* l, int n, double a, double b, double bend)
{
    KV_double_1d x(l, n);
    for (int i = 0; i < n; ++i) {
        double const t = double(i) / (n - 1);
        x(i) = a + (b - a) * (t + bend * t * (1 - t));
    }
    return x;
}
} // namespace fix
