// Coherence of mirrored arrays under every sequence of N operations.
#include <cassert>
#include <string>
#include <Kokkos_Core.hpp>
#include <dual_view.hpp>
#include <kokkos_shortcut.hpp>
#include "hv.hpp"
using namespace hclpp;
namespace {
constexpr int size = 2;
char const* const bits[][4] = {
        {"op0.0", "op0.1", "op0.2", "op0.3"}, {"op1.0", "op1.1", "op1.2", "op1.3"}, {"op2.0", "op2.1", "op2.2", "op2.3"},
        {"op3.0", "op3.1", "op3.2", "op3.3"}, {"op4.0", "op4.1", "op4.2", "op4.3"}, {"op5.0", "op5.1", "op5.2", "op5.3"}};
char const* const vals[][2] = {{"a0", "a1"}, {"b0", "b1"}, {"c0", "c1"}, {"d0", "d1"}, {"e0", "e1"}, {"f0", "f1"}};
struct Model
{
    double x[size];
};
template <class V>
void read(V const& v, Model const& m, char const* what)
{
    hv_eq(what, v(0), m.x[0]);
    hv_eq(what, v(1), m.x[1]);
}
template <class V>
void put(V const& v, Model& m, int s)
{
    for (int i = 0; i < size; ++i) {
        m.x[i] = hv_sym(vals[s][i]);
        v(i) = m.x[i];
    }
}
template <class V>
void put_one(V const& v, Model& m, int s)
{
    m.x[1] = hv_sym(vals[s][1]);
    v(1) = m.x[1];
}
} // namespace
extern "C" {
// every sequence: the first operation writes, the others are arbitrary
void coherence()
{
    KDV_double_1d const v("v", size);
    KDV_double_1d const copy(v);
    auto const c = v.const_view();
    Model m;
    if (hv_bsym("first on host")) {
        put(v(host, discard_write), m, 0);
    } else {
        put(v(device, discard_write), m, 0);
    }
    for (int s = 1; s < HV_STEPS; ++s) {
        bool const on_host = hv_bsym(bits[s][0]);
        KDV_double_1d const& w = hv_bsym(bits[s][1]) ? v : copy;
        if (hv_bsym(bits[s][2])) { // write
            if (hv_bsym(bits[s][3])) {
                if (on_host) {
                    put(w(host, discard_write), m, s);
                } else {
                    put(w(device, discard_write), m, s);
                }
            } else {
                if (on_host) {
                    put_one(w(host), m, s);
                } else {
                    put_one(w(device), m, s);
                }
            }
        } else {
            if (hv_bsym(bits[s][3])) {
                if (on_host) {
                    read(w(host, read_only), m, "host value");
                } else {
                    read(w(device, read_only), m, "device value");
                }
            } else {
                if (on_host) {
                    read(c(host, read_only), m, "host value of the constant view");
                } else {
                    read(c(device, read_only), m, "device value of the constant view");
                }
            }
        }
    }
    read(v(host, read_only), m, "final host value");
    read(v(device, read_only), m, "final device value");
    read(c(host, read_only), m, "final host value of the constant view");
}
void explicit_sync()
{
    KDV_double_1d const v("v", size);
    Model m;
    bool const on_host = hv_bsym("on host");
    if (on_host) {
        put(v(host, discard_write), m, 0);
    } else {
        put(v(device, discard_write), m, 0);
    }
    hv_eqb("the device is stale after a host write", v.need_synchronization(device), on_host);
    hv_eqb("the host is stale after a device write", v.need_synchronization(host), !on_host);
    if (on_host) {
        v.synchronize(device);
    } else {
        v.synchronize(host);
    }
    hv_eqb("not stale after synchronisation", v.need_synchronization(device), false);
    hv_eqb("not stale after synchronisation", v.need_synchronization(host), false);
    read(v(device, read_only), m, "device value");
    read(v(host, read_only), m, "host value");
}
void handles()
{
    KDV_double_1d const v("v", size);
    KDV_double_1d w;
    hv_eqb("a default array is not allocated", w.is_allocated(), false);
    w = v;
    hv_eqb("assignment shares", w.is_allocated(), true);
    Model m;
    put(w(host, discard_write), m, 0);
    read(v(device, read_only), m, "device value through the original");
    KDV_double_1d const x(std::move(w));
    put_one(x(device), m, 1);
    read(v(host, read_only), m, "host value through the original");
    KDV_cdouble_1d c;
    c = v;
    put_one(v(device), m, 2);
    read(c(host, read_only), m, "host value through the constant handle");
    hv_eqi("extent", x.extent_int(0), size);
    hv_eqi("size", (long)x.size(), size);
}
void types()
{
    static_assert(std::is_same_v<decltype(std::declval<KDV_double_1d const&>()(host, read_only))::value_type, double const>);
    static_assert(std::is_same_v<decltype(std::declval<KDV_double_1d const&>()(device, read_only))::value_type, double const>);
    static_assert(std::is_same_v<decltype(std::declval<KDV_cdouble_1d const&>()(device, read_only))::value_type, double const>);
    static_assert(std::is_same_v<decltype(std::declval<KDV_double_1d const&>()(device))::value_type, double>);
    static_assert(std::is_same_v<decltype(std::declval<KDV_double_1d const&>()(host))::value_type, double>);
    static_assert(!std::is_constructible_v<KV_double_1d, KV_cdouble_1d>);
    static_assert(!std::is_convertible_v<KDV_double_1d, KV_double_1d>);
    hv_true("types", true);
}
}
