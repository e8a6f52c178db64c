// Declaration-level model of the part of the Kokkos API that HERACLES++ uses.
// It exists so that clang can resolve the whole program; nothing here is ever executed.
// Every operation with an effect is an undefined extern "C" hv_* function that the
// value-flow analyser (vf/) interprets.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <iostream>
#include <numbers>
#include <string>
#include <type_traits>
#include <utility>

extern "C" {
char const* hv_string_cstr(std::string const* s) noexcept;
void* hv_view_alloc(char const* label, int rank, long e0, long e1, long e2, long e3, long e4, long e5, long e6, long e7) noexcept;
void* hv_view_null() noexcept;
void* hv_view_mirror(void* h) noexcept;
void* hv_view_elem(void* h, int rank, long i0, long i1, long i2, long i3, long i4, long i5, long i6, long i7) noexcept;
void* hv_view_data(void* h) noexcept;
long hv_view_extent(void* h, long r) noexcept;
long hv_view_stride(void* h, long r) noexcept;
long hv_view_size(void* h) noexcept;
long hv_view_span(void* h) noexcept;
bool hv_view_contig(void* h) noexcept;
char const* hv_view_label(void* h) noexcept;
bool hv_view_allocated(void* h) noexcept;
// kind: 0 = ALL, 1 = half-open pair, 2 = fixed index
void* hv_subview(void* h, int n, int k0, long a0, long b0, int k1, long a1, long b1, int k2, long a2, long b2, int k3, long a3, long b3, int k4, long a4, long b4, int k5, long a5, long b5, int k6, long a6, long b6, int k7, long a7, long b7) noexcept;
void hv_deep_copy(void* dst, void* src) noexcept;
void hv_deep_copy_scalar(void* dst, double v) noexcept;
// kind: 0 = for, 1 = reduce, 2 = scan
void hv_kernel_begin(char const* label, int kind, int rank, long b0, long e0, long b1, long e1, long b2, long e2, long b3, long e3) noexcept;
long hv_kernel_index(int d) noexcept;
void hv_kernel_end() noexcept;
double hv_reduce_acc(int slot, int op) noexcept;
double hv_reduce_end(int slot, int op, double local) noexcept;
bool hv_scan_final() noexcept;
double hv_scan_acc(int slot) noexcept;
void hv_scan_end(int slot, double local) noexcept;
void hv_fence(char const* label) noexcept;
void hv_region_push(char const* label) noexcept;
void hv_region_pop() noexcept;
void hv_printf() noexcept;
void hv_print_configuration(std::ostream* os) noexcept;
void hv_kokkos_init(int argc, char** argv) noexcept;
void hv_kokkos_fini() noexcept;
}

#define KOKKOS_VERSION 40500
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_ASSERT(...)
#define KOKKOS_EXPECTS(...)
#define KOKKOS_RESTRICT

namespace Kokkos {

namespace numbers = std::numbers;

struct HVLabel
{
    char const* c;
    HVLabel() : c("") {}
    HVLabel(char const* s) : c(s) {}
    HVLabel(std::string const& s) : c(hv_string_cstr(&s)) {}
};

struct LayoutLeft
{
    long dimension[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
};
struct LayoutRight
{
    long dimension[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
};
struct LayoutStride
{
    long dimension[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
};
struct HostSpace { };
struct SharedHostPinnedSpace { };
struct SharedSpace { };
struct DeviceSpace { };
struct Serial
{
    using memory_space = HostSpace;
};
struct HVDevice
{
    using memory_space = DeviceSpace;
    using execution_space = HVDevice;
};
using DefaultExecutionSpace = HVDevice;
using DefaultHostExecutionSpace = Serial;
enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned T = 0>
struct MemoryTraits { };

struct ALL_t { };
inline constexpr ALL_t ALL {};

template <class A, class B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first;
    B second;
    pair() = default;
    constexpr pair(A a, B b) : first(a), second(b) {}
    template <class U, class V>
    constexpr pair(pair<U, V> const& p) : first(p.first), second(p.second)
    {
    }
};
template <class A, class B>
constexpr auto make_pair(A a, B b) -> pair<A, B>
{
    return pair<A, B>(a, b);
}

template <class T, std::size_t N>
struct Array
{
    T m_internal_implementation_private_member_data[N];
    using value_type = T;
    using size_type = std::size_t;
    using reference = T&;
    using const_reference = T const&;
    using pointer = T*;
    using const_pointer = T const*;
    static constexpr auto size() -> std::size_t { return N; }
    static constexpr auto empty() -> bool { return false; }
    static constexpr auto max_size() -> std::size_t { return N; }
    template <class I>
    constexpr auto operator[](I i) -> T& { return m_internal_implementation_private_member_data[i]; }
    template <class I>
    constexpr auto operator[](I i) const -> T const& { return m_internal_implementation_private_member_data[i]; }
    constexpr auto data() -> T* { return &m_internal_implementation_private_member_data[0]; }
    constexpr auto data() const -> T const* { return &m_internal_implementation_private_member_data[0]; }
    friend constexpr auto operator==(Array const& a, Array const& b) noexcept -> bool
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (a[i] != b[i]) {
                return false;
            }
        }
        return true;
    }
};
template <typename T, typename... Us>
Array(T, Us...) -> Array<T, 1 + sizeof...(Us)>;
template <class T, std::size_t N>
constexpr auto begin(Array<T, N>& a) noexcept -> T* { return a.data(); }
template <class T, std::size_t N>
constexpr auto begin(Array<T, N> const& a) noexcept -> T const* { return a.data(); }
template <class T, std::size_t N>
constexpr auto end(Array<T, N>& a) noexcept -> T* { return a.data() + N; }
template <class T, std::size_t N>
constexpr auto end(Array<T, N> const& a) noexcept -> T const* { return a.data() + N; }
template <std::size_t I, class T, std::size_t N>
constexpr auto get(Array<T, N>& a) noexcept -> T& { return a[I]; }
template <std::size_t I, class T, std::size_t N>
constexpr auto get(Array<T, N> const& a) noexcept -> T const& { return a[I]; }
template <class T, std::size_t N>
constexpr auto to_array(T const (&a)[N]) -> Array<T, N>
{
    Array<T, N> r {};
    for (std::size_t i = 0; i < N; ++i) {
        r[i] = a[i];
    }
    return r;
}

namespace Impl {
template <class T>
struct hv_analyze
{
    using value = T;
    using cvalue = T const;
    using ncvalue = std::remove_const_t<T>;
    static constexpr unsigned rank = 0;
    using data = T;
    using cdata = T const;
    using ncdata = std::remove_const_t<T>;
};
template <class T>
struct hv_analyze<T*>
{
    using sub = hv_analyze<T>;
    using value = typename sub::value;
    using cvalue = typename sub::cvalue;
    using ncvalue = typename sub::ncvalue;
    static constexpr unsigned rank = 1 + sub::rank;
    using data = T*;
    using cdata = typename sub::cdata*;
    using ncdata = typename sub::ncdata*;
};
template <class V, unsigned R>
struct hv_data
{
    using type = typename hv_data<V, R - 1>::type*;
};
template <class V>
struct hv_data<V, 0>
{
    using type = V;
};
template <class... P>
struct hv_props
{
    using layout = LayoutRight;
    using space = DefaultExecutionSpace::memory_space;
    using traits = MemoryTraits<>;
};
template <class L>
inline constexpr bool hv_is_layout = std::is_same_v<L, LayoutLeft> || std::is_same_v<L, LayoutRight> || std::is_same_v<L, LayoutStride>;
template <class S>
inline constexpr bool hv_is_space = std::is_same_v<S, HostSpace> || std::is_same_v<S, SharedHostPinnedSpace> || std::is_same_v<S, DeviceSpace> || std::is_same_v<S, SharedSpace>;
template <class P, class... R>
struct hv_props<P, R...>
{
    using layout = std::conditional_t<hv_is_layout<P>, P, typename hv_props<R...>::layout>;
    using space = std::conditional_t<hv_is_space<P>, P, typename hv_props<R...>::space>;
    using traits = std::conditional_t<!hv_is_layout<P> && !hv_is_space<P>, P, typename hv_props<R...>::traits>;
};
template <class S>
struct hv_host_mirror
{
    using memory_space = std::conditional_t<std::is_same_v<S, DeviceSpace>, HostSpace, S>;
};
template <class T>
inline constexpr int hv_sv_kind = std::is_integral_v<std::remove_cvref_t<T>> ? 2 : (std::is_same_v<std::remove_cvref_t<T>, ALL_t> ? 0 : 1);
template <class T>
constexpr auto hv_sv_a(T const& t) -> long
{
    if constexpr (hv_sv_kind<T> == 2) {
        return static_cast<long>(t);
    } else if constexpr (hv_sv_kind<T> == 1) {
        return static_cast<long>(t.first);
    } else {
        return 0;
    }
}
template <class T>
constexpr auto hv_sv_b(T const& t) -> long
{
    if constexpr (hv_sv_kind<T> == 1) {
        return static_cast<long>(t.second);
    } else {
        return 0;
    }
}
} // namespace Impl

template <class DT, class... P>
struct ViewTraits
{
    using an = Impl::hv_analyze<DT>;
    using data_type = typename an::data;
    using const_data_type = typename an::cdata;
    using non_const_data_type = typename an::ncdata;
    using value_type = typename an::value;
    using const_value_type = typename an::cvalue;
    using non_const_value_type = typename an::ncvalue;
    using array_layout = typename Impl::hv_props<P...>::layout;
    using memory_space = typename Impl::hv_props<P...>::space;
    using memory_traits = typename Impl::hv_props<P...>::traits;
    using execution_space = DefaultExecutionSpace;
    using host_mirror_space = Impl::hv_host_mirror<memory_space>;
    struct dimension
    {
        static constexpr unsigned rank = an::rank;
        static constexpr unsigned rank_dynamic = an::rank;
    };
};

template <class DT, class... P>
class View
{
    template <class, class...>
    friend class View;

public:
    using traits = ViewTraits<DT, P...>;
    using data_type = typename traits::data_type;
    using value_type = typename traits::value_type;
    using const_value_type = typename traits::const_value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using array_layout = typename traits::array_layout;
    using memory_space = typename traits::memory_space;
    using memory_traits = typename traits::memory_traits;
    using execution_space = typename traits::execution_space;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = std::size_t;
    using const_type = View<typename traits::const_data_type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<typename traits::non_const_data_type, array_layout, memory_space, memory_traits>;
    using HostMirror = View<typename traits::non_const_data_type, array_layout, typename traits::host_mirror_space::memory_space, memory_traits>;
    static constexpr unsigned rank = traits::dimension::rank;
    static constexpr unsigned rank_dynamic = rank;

    void* m_h = hv_view_null();

    View() = default;
    View(View const&) = default;
    View(View&&) noexcept = default;
    auto operator=(View const&) -> View& = default;
    auto operator=(View&&) noexcept -> View& = default;
    ~View() = default;

    template <class... I>
        requires(sizeof...(I) <= 8 && (std::is_convertible_v<I, std::size_t> && ...) && !std::is_const_v<value_type>)
    explicit View(HVLabel const& l, I... e)
    {
        long a[8] = {static_cast<long>(e)..., -1};
        m_h = alloc(l.c, a, static_cast<int>(sizeof...(I)));
    }

    View(HVLabel const& l, array_layout const& lay)
    {
        m_h = alloc(l.c, lay.dimension, static_cast<int>(rank));
    }
    auto layout() const -> array_layout
    {
        array_layout r;
        for (unsigned i = 0; i < rank; ++i) {
            r.dimension[i] = hv_view_extent(m_h, static_cast<long>(i));
        }
        return r;
    }

    struct HVRaw { };
    View(HVRaw /*tag*/, void* h) : m_h(h) {}

    template <class DT2, class... P2>
        requires(std::is_same_v<typename traits::const_value_type, typename View<DT2, P2...>::traits::const_value_type>
                 && (std::is_const_v<value_type> || !std::is_const_v<typename View<DT2, P2...>::value_type>)
                 && rank == View<DT2, P2...>::rank && std::is_same_v<memory_space, typename View<DT2, P2...>::memory_space>
                 && !std::is_same_v<View, View<DT2, P2...>>)
    View(View<DT2, P2...> const& o) : m_h(o.m_h)
    {
    }

    template <class... I>
        requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    auto operator()(I... idx) const -> reference_type
    {
        long a[8] = {static_cast<long>(idx)..., 0};
        return *static_cast<pointer_type>(hv_view_elem(m_h, static_cast<int>(sizeof...(I)), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]));
    }
    auto operator()() const -> reference_type
        requires(rank == 0)
    {
        return *static_cast<pointer_type>(hv_view_elem(m_h, 0, 0, 0, 0, 0, 0, 0, 0, 0));
    }
    template <class I>
        requires(rank == 1 && std::is_integral_v<I>)
    auto operator[](I i) const -> reference_type
    {
        return (*this)(i);
    }
    template <class... I>
    auto access(I... idx) const -> reference_type
    {
        return (*this)(idx...);
    }
    template <class I>
    auto extent(I r) const noexcept -> std::size_t
    {
        return static_cast<std::size_t>(hv_view_extent(m_h, static_cast<long>(r)));
    }
    template <class I>
    auto extent_int(I r) const noexcept -> int
    {
        return static_cast<int>(hv_view_extent(m_h, static_cast<long>(r)));
    }
    template <class I>
    auto stride(I r) const noexcept -> std::size_t
    {
        return static_cast<std::size_t>(hv_view_stride(m_h, static_cast<long>(r)));
    }
    auto data() const noexcept -> pointer_type { return static_cast<pointer_type>(hv_view_data(m_h)); }
    auto size() const noexcept -> std::size_t { return static_cast<std::size_t>(hv_view_size(m_h)); }
    auto span() const noexcept -> std::size_t { return static_cast<std::size_t>(hv_view_span(m_h)); }
    auto span_is_contiguous() const noexcept -> bool { return hv_view_contig(m_h); }
    auto is_allocated() const noexcept -> bool { return hv_view_allocated(m_h); }
    auto label() const -> std::string { return std::string(hv_view_label(m_h)); }

private:
    static auto alloc(char const* l, long const* a, int n) -> void*
    {
        long e[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
        for (int i = 0; i < n; ++i) {
            e[i] = a[i];
        }
        return hv_view_alloc(l, static_cast<int>(rank), e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]);
    }
};

template <class>
struct is_view : std::false_type { };
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type { };
template <class D, class... P>
struct is_view<View<D, P...> const> : std::true_type { };
template <class T>
inline constexpr bool is_view_v = is_view<T>::value;

template <class DT, class... P, class... A>
auto subview(View<DT, P...> const& v, A... args)
{
    using VT = View<DT, P...>;
    static_assert(sizeof...(A) == VT::rank);
    constexpr unsigned r = (0U + ... + (Impl::hv_sv_kind<A> == 2 ? 0U : 1U));
    using RT = View<typename Impl::hv_data<typename VT::value_type, r>::type, typename VT::array_layout, typename VT::memory_space, typename VT::memory_traits>;
    int k[9] = {Impl::hv_sv_kind<A>..., 3};
    long a[9] = {Impl::hv_sv_a(args)..., 0};
    long b[9] = {Impl::hv_sv_b(args)..., 0};
    return RT(typename RT::HVRaw {}, hv_subview(v.m_h, static_cast<int>(sizeof...(A)), k[0], a[0], b[0], k[1], a[1], b[1], k[2], a[2], b[2], k[3], a[3], b[3], k[4], a[4], b[4], k[5], a[5], b[5], k[6], a[6], b[6], k[7], a[7], b[7]));
}

template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v) -> typename View<D, P...>::HostMirror
{
    return typename View<D, P...>::HostMirror(typename View<D, P...>::HostMirror::HVRaw {}, hv_view_mirror(v.m_h));
}
template <class D, class... P>
auto create_mirror(View<D, P...> const& v) -> typename View<D, P...>::HostMirror
{
    return typename View<D, P...>::HostMirror(typename View<D, P...>::HostMirror::HVRaw {}, hv_view_mirror(v.m_h));
}

template <class D1, class... P1, class D2, class... P2>
void deep_copy(View<D1, P1...> const& dst, View<D2, P2...> const& src)
{
    static_assert(View<D1, P1...>::rank == View<D2, P2...>::rank);
    static_assert(!std::is_const_v<typename View<D1, P1...>::value_type>);
    hv_deep_copy(dst.m_h, src.m_h);
}
template <class D1, class... P1>
void deep_copy(View<D1, P1...> const& dst, typename View<D1, P1...>::const_value_type& v)
{
    static_assert(!std::is_const_v<typename View<D1, P1...>::value_type>);
    hv_deep_copy_scalar(dst.m_h, static_cast<double>(v));
}
template <class D2, class... P2>
    requires(View<D2, P2...>::rank == 0)
void deep_copy(std::remove_const_t<typename View<D2, P2...>::value_type>& dst, View<D2, P2...> const& src)
{
    dst = src();
}

template <class T>
struct IndexType { };
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default>
struct Rank
{
    static constexpr unsigned rank = N;
};
namespace Impl {
template <class... P>
struct hv_find_rank;
template <unsigned N, Iterate A, Iterate B, class... R>
struct hv_find_rank<Rank<N, A, B>, R...>
{
    static constexpr unsigned rank = N;
};
template <class P, class... R>
struct hv_find_rank<P, R...>
{
    static constexpr unsigned rank = hv_find_rank<R...>::rank;
};
} // namespace Impl

template <class... P>
struct MDRangePolicy
{
    static constexpr unsigned rank = Impl::hv_find_rank<P...>::rank;
    long m_lower[rank];
    long m_upper[rank];
    template <class T>
    MDRangePolicy(T const (&b)[rank], T const (&e)[rank])
    {
        for (unsigned i = 0; i < rank; ++i) {
            m_lower[i] = static_cast<long>(b[i]);
            m_upper[i] = static_cast<long>(e[i]);
        }
    }
    template <class T>
    MDRangePolicy(Array<T, rank> const& b, Array<T, rank> const& e)
    {
        for (unsigned i = 0; i < rank; ++i) {
            m_lower[i] = static_cast<long>(b[i]);
            m_upper[i] = static_cast<long>(e[i]);
        }
    }
};
template <class... P>
struct RangePolicy
{
    static constexpr unsigned rank = 1;
    long m_lower[1];
    long m_upper[1];
    template <class A, class B>
    RangePolicy(A b, B e) : m_lower {static_cast<long>(b)}, m_upper {static_cast<long>(e)}
    {
    }
};
namespace Impl {
template <class Policy>
auto hv_begin(HVLabel const& l, Policy const& p, int kind) -> void
{
    long b[4] = {0, 0, 0, 0};
    long e[4] = {1, 1, 1, 1};
    for (unsigned i = 0; i < Policy::rank; ++i) {
        b[i] = p.m_lower[i];
        e[i] = p.m_upper[i];
    }
    hv_kernel_begin(l.c, kind, static_cast<int>(Policy::rank), b[0], e[0], b[1], e[1], b[2], e[2], b[3], e[3]);
}
template <unsigned N, class F, class... A>
auto hv_call(F const& f, A&... a) -> void
{
    if constexpr (N == 1) {
        f(static_cast<int>(hv_kernel_index(0)), a...);
    } else if constexpr (N == 2) {
        f(static_cast<int>(hv_kernel_index(0)), static_cast<int>(hv_kernel_index(1)), a...);
    } else if constexpr (N == 3) {
        f(static_cast<int>(hv_kernel_index(0)), static_cast<int>(hv_kernel_index(1)), static_cast<int>(hv_kernel_index(2)), a...);
    } else {
        f(static_cast<int>(hv_kernel_index(0)), static_cast<int>(hv_kernel_index(1)), static_cast<int>(hv_kernel_index(2)), static_cast<int>(hv_kernel_index(3)), a...);
    }
}
template <class V>
auto hv_ref(V& v) -> double&
{
    return v;
}
template <class D, class... P>
auto hv_ref(View<D, P...> const& v) -> double&
{
    return v();
}
// op: 0 sum, 1 min, 2 max, 3 prod
template <int Op>
struct hv_reducer
{
    double* m_p;
    explicit hv_reducer(double& r) : m_p(&r) {}
    template <class D, class... P>
    explicit hv_reducer(View<D, P...> const& v) : m_p(&v())
    {
    }
    static constexpr int op = Op;
};
} // namespace Impl
template <class T, class S = HostSpace>
struct Sum : Impl::hv_reducer<0>
{
    using Impl::hv_reducer<0>::hv_reducer;
};
template <class T, class S = HostSpace>
struct Min : Impl::hv_reducer<1>
{
    using Impl::hv_reducer<1>::hv_reducer;
};
template <class T, class S = HostSpace>
struct Max : Impl::hv_reducer<2>
{
    using Impl::hv_reducer<2>::hv_reducer;
};
template <class T, class S = HostSpace>
struct Prod : Impl::hv_reducer<3>
{
    using Impl::hv_reducer<3>::hv_reducer;
};
template <class D, class... P>
Sum(View<D, P...> const&) -> Sum<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;
template <class D, class... P>
Min(View<D, P...> const&) -> Min<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;
template <class D, class... P>
Max(View<D, P...> const&) -> Max<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;
template <class T>
Sum(T&) -> Sum<T, HostSpace>;
template <class T>
Min(T&) -> Min<T, HostSpace>;
template <class T>
Max(T&) -> Max<T, HostSpace>;

namespace Impl {
template <class R>
inline constexpr int hv_op = -1;
template <class T, class S>
inline constexpr int hv_op<Sum<T, S>> = 0;
template <class T, class S>
inline constexpr int hv_op<Min<T, S>> = 1;
template <class T, class S>
inline constexpr int hv_op<Max<T, S>> = 2;
template <class T, class S>
inline constexpr int hv_op<Prod<T, S>> = 3;
template <class R>
inline constexpr int hv_opx = hv_op<std::remove_cvref_t<R>> < 0 ? 0 : hv_op<std::remove_cvref_t<R>>;
template <class R>
auto hv_target(R& r) -> double&
{
    if constexpr (hv_op<std::remove_cvref_t<R>> >= 0) {
        return *r.m_p;
    } else {
        return r;
    }
}
} // namespace Impl

template <class Policy, class F>
void parallel_for(HVLabel const& l, Policy const& p, F const& f)
{
    Impl::hv_begin(l, p, 0);
    F const g(f);
    Impl::hv_call<Policy::rank>(g);
    hv_kernel_end();
}
template <class Policy, class F>
    requires(!std::is_convertible_v<Policy, HVLabel>)
void parallel_for(Policy const& p, F const& f)
{
    parallel_for(HVLabel(""), p, f);
}
template <class Policy, class F, class R0>
void parallel_reduce(HVLabel const& l, Policy const& p, F const& f, R0&& r0)
{
    Impl::hv_begin(l, p, 1);
    F const g(f);
    double a0 = hv_reduce_acc(0, Impl::hv_opx<R0>);
    Impl::hv_call<Policy::rank>(g, a0);
    double const v0 = hv_reduce_end(0, Impl::hv_opx<R0>, a0);
    hv_kernel_end();
    Impl::hv_target(r0) = v0;
}
template <class Policy, class F, class R0, class R1>
void parallel_reduce(HVLabel const& l, Policy const& p, F const& f, R0&& r0, R1&& r1)
{
    Impl::hv_begin(l, p, 1);
    F const g(f);
    double a0 = hv_reduce_acc(0, Impl::hv_opx<R0>);
    double a1 = hv_reduce_acc(1, Impl::hv_opx<R1>);
    Impl::hv_call<Policy::rank>(g, a0, a1);
    double const v0 = hv_reduce_end(0, Impl::hv_opx<R0>, a0);
    double const v1 = hv_reduce_end(1, Impl::hv_opx<R1>, a1);
    hv_kernel_end();
    Impl::hv_target(r0) = v0;
    Impl::hv_target(r1) = v1;
}
template <class Policy, class F>
void parallel_scan(HVLabel const& l, Policy const& p, F const& f)
{
    Impl::hv_begin(l, p, 2);
    F const g(f);
    double a0 = hv_scan_acc(0);
    g(static_cast<int>(hv_kernel_index(0)), a0, hv_scan_final());
    hv_scan_end(0, a0);
    hv_kernel_end();
}

inline void fence(HVLabel const& l = HVLabel())
{
    hv_fence(l.c);
}
namespace Profiling {
inline void pushRegion(HVLabel const& l)
{
    hv_region_push(l.c);
}
inline void popRegion()
{
    hv_region_pop();
}
} // namespace Profiling
inline void print_configuration(std::ostream& os, bool /*v*/ = false)
{
    hv_print_configuration(&os);
}
class ScopeGuard
{
public:
    ScopeGuard(int& argc, char** argv) { hv_kokkos_init(argc, argv); }
    ~ScopeGuard() { hv_kokkos_fini(); }
    ScopeGuard(ScopeGuard const&) = delete;
    auto operator=(ScopeGuard const&) -> ScopeGuard& = delete;
};
template <class... A>
void printf(char const* /*fmt*/, A... /*a*/)
{
    hv_printf();
}

using std::abs;
using std::atan;
using std::atan2;
using std::acos;
using std::asin;
using std::cbrt;
using std::copysign;
using std::cos;
using std::cosh;
using std::erf;
using std::exp;
using std::fabs;
using std::fmax;
using std::fmin;
using std::fma;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::log10;
using std::pow;
using std::signbit;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
template <class T>
constexpr auto max(T const& a, T const& b) -> T const&
{
    return (a < b) ? b : a;
}
template <class T>
constexpr auto min(T const& a, T const& b) -> T const&
{
    return (b < a) ? b : a;
}
template <class T>
constexpr auto clamp(T const& v, T const& lo, T const& hi) -> T const&
{
    return (v < lo) ? lo : ((hi < v) ? hi : v);
}
template <class T>
constexpr void kokkos_swap(T& a, T& b) noexcept
{
    T t(a);
    a = b;
    b = t;
}

namespace Experimental {
template <class T>
struct finite_max
{
    static constexpr T value = std::numeric_limits<T>::max();
};
template <class T>
inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template <class T>
inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template <class T>
inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template <class T>
inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template <class T>
inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
} // namespace Experimental

} // namespace Kokkos

template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N> { };
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>>
{
    using type = T;
};
