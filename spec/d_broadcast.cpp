// Broadcasting a value or a column to a field, over an arbitrary sub-domain; direction helpers.
#include "hv.hpp"
#include "world.hpp"
#include <broadcast.hpp>
#include <kronecker.hpp>
using namespace hclpp;
using namespace world;
namespace {
bool inside(Box const& b, Cell const& c)
{
    bool r = true;
    for (int d = 0; d < 3; ++d) {
        r = r && c.x[d] >= b.lo[d] && c.x[d] < b.hi[d];
    }
    return r;
}
Cell anywhere()
{
    static char const* const ii[] = {"i", "j", "k"};
    Cell c;
    for (int d = 0; d < 3; ++d) {
        c.x[d] = static_cast<int>(isym_ge(ii[d], 0));
    }
    return c;
}
template <class V>
void outside_kept(V const& out, Box const& b, double before, double value, Cell const& c)
{
    hv_eq("cells of the range get the value, the others keep theirs", at(out, c), inside(b, c) ? value : before);
}
} // namespace
extern "C" {
void bc_scalar3()
{
    Box const b = box(2, 0);
    auto const out = hv_view<KV_double_3d>("out");
    Cell const c = anywhere();
    covers(out, c);
    double const before = at(out, c);
    double const v = hv_sym("v");
    broadcast(range(b), v, out);
    outside_kept(out, b, before, v, c);
}
void bc_scalar4()
{
    Box const b = box(2, 0);
    auto const out = hv_view<KV_double_4d>("out");
    Cell const c = anywhere();
    int const f = static_cast<int>(isym_ge("f", 0));
    covers(out, c);
    hv_fact(out.extent_int(3) - 1 - f);
    double const before = at(out, c, f);
    double const v = hv_sym("v");
    broadcast(range(b), v, out);
    hv_eq("cells of the range get the value, the others keep theirs", at(out, c, f), inside(b, c) ? v : before);
}
void bc_column3()
{
    Box const b = box(2, 0);
    auto const out = hv_view<KV_double_3d>("out");
    auto const in = hv_view<KV_cdouble_1d>("in");
    Cell const c = anywhere();
    covers(out, c);
    double const before = at(out, c);
    double const v = in(c.x[0] - b.ng);
    broadcast(range(b), in, out);
    outside_kept(out, b, before, v, c);
}
void bc_column4()
{
    Box const b = box(2, 0);
    auto const out = hv_view<KV_double_4d>("out");
    auto const in = hv_view<KV_cdouble_1d>("in");
    Cell const c = anywhere();
    int const f = static_cast<int>(isym_ge("f", 0));
    covers(out, c);
    hv_fact(out.extent_int(3) - 1 - f);
    double const before = at(out, c, f);
    double const v = in(c.x[0] - b.ng);
    broadcast(range(b), in, out);
    hv_eq("cells of the range get the column, the others keep theirs", at(out, c, f), inside(b, c) ? v : before);
}
void dir_helpers()
{
    int const i = static_cast<int>(hv_isym("i"));
    int const j = static_cast<int>(hv_isym("j"));
    int const k = static_cast<int>(hv_isym("k"));
    int const a = static_cast<int>(hv_isym("a"));
    int const b = static_cast<int>(hv_isym("b"));
    hv_eqi("kronecker", kron(a, b), a == b ? 1 : 0);
    auto const l = lindex(a, i, j, k);
    auto const r = rindex(a, i, j, k);
    hv_eqi("left 0", l[0], a == 0 ? i - 1 : i);
    hv_eqi("left 1", l[1], a == 1 ? j - 1 : j);
    hv_eqi("left 2", l[2], a == 2 ? k - 1 : k);
    hv_eqi("right 0", r[0], a == 0 ? i + 1 : i);
    hv_eqi("right 1", r[1], a == 1 ? j + 1 : j);
    hv_eqi("right 2", r[2], a == 2 ? k + 1 : k);
}
}
