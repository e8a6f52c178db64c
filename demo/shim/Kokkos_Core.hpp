// Minimal serial run-time stand-in for the parts of Kokkos this project uses (demonstrations only).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numbers>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_ASSERT(x) ;
#define KOKKOS_VERSION 40500
namespace Kokkos {
template <class T, std::size_t N>
struct Array;
}
template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N>
{
};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>>
{
    using type = T;
};
namespace Kokkos {
struct ALL_t
{
};
inline constexpr ALL_t ALL {};
struct LayoutLeft
{
};
struct LayoutRight
{
};
struct HostSpace
{
    using memory_space = HostSpace;
    using execution_space = HostSpace;
};
using DefaultExecutionSpace = HostSpace;
using DefaultHostExecutionSpace = HostSpace;
using SharedHostPinnedSpace = HostSpace;
enum MTF { Unmanaged = 1, RandomAccess = 2, Restrict = 4 };
template <unsigned T = 0>
struct MemoryTraits
{
};
using MemoryUnmanaged = MemoryTraits<1>;
template <class A, class B>
using pair = std::pair<A, B>;
template <class A, class B>
auto make_pair(A a, B b)
{
    return std::pair<A, B>(a, b);
}
template <class T, std::size_t N>
struct Array
{
    T d[N ? N : 1];
    constexpr T& operator[](std::size_t i) { return d[i]; }
    constexpr T const& operator[](std::size_t i) const { return d[i]; }
    constexpr T* data() { return d; }
    constexpr T const* data() const { return d; }
    constexpr std::size_t size() const { return N; }
};
template <class T, class... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template <std::size_t I, class T, std::size_t N>
constexpr T& get(Array<T, N>& a) { return a.d[I]; }
template <std::size_t I, class T, std::size_t N>
constexpr T const& get(Array<T, N> const& a) { return a.d[I]; }
template <std::size_t I, class T, std::size_t N>
constexpr T&& get(Array<T, N>&& a) { return (T&&)a.d[I]; }
template <class T, std::size_t N>
T* begin(Array<T, N>& a) { return a.d; }
template <class T, std::size_t N>
T* end(Array<T, N>& a) { return a.d + N; }
template <class T, std::size_t N>
T const* begin(Array<T, N> const& a) { return a.d; }
template <class T, std::size_t N>
T const* end(Array<T, N> const& a) { return a.d + N; }
using std::abs;
using std::atan;
using std::clamp;
using std::cos;
using std::exp;
using std::fabs;
using std::fmax;
using std::fmin;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::max;
using std::min;
using std::pow;
using std::printf;
using std::sin;
using std::sqrt;
using std::tanh;
namespace numbers = std::numbers;
namespace Experimental {
template <class T>
using infinity = std::numeric_limits<T>;
template <class T>
inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
}
namespace shim {
template <class D>
struct Data
{
    using value = D;
    static constexpr int rank = 0;
};
template <class D>
struct Data<D*>
{
    using value = typename Data<D>::value;
    static constexpr int rank = Data<D>::rank + 1;
};
template <class... P>
inline constexpr bool right = (std::is_same_v<P, LayoutRight> || ...);
template <class V, int R>
struct MakeData
{
    using type = typename MakeData<V*, R - 1>::type;
};
template <class V>
struct MakeData<V, 0>
{
    using type = V;
};
} // namespace shim
struct WithoutInit
{
};
inline constexpr WithoutInit WithoutInitializing {};
struct AllocProp
{
    std::string label;
};
template <class... A>
AllocProp view_alloc(std::string l, A...)
{
    return {l};
}
template <class D, class... P>
class View
{
public:
    using value_type = typename shim::Data<D>::value;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = std::add_const_t<non_const_value_type>;
    static constexpr int R = shim::Data<D>::rank;
    static constexpr int rank = R;
    static constexpr int Rank = R;
    using data_type = D;
    using non_const_data_type = typename shim::MakeData<non_const_value_type, R>::type;
    using const_data_type = typename shim::MakeData<const_value_type, R>::type;
    using array_layout = std::conditional_t<shim::right<P...>, LayoutRight, LayoutLeft>;
    using memory_space = HostSpace;
    using execution_space = HostSpace;
    using device_type = HostSpace;
    using memory_traits = MemoryTraits<0>;
    using HostMirror = View<non_const_data_type, array_layout, HostSpace>;
    using host_mirror_type = HostMirror;
    using size_type = std::size_t;
    using pointer_type = value_type*;
    using reference_type = value_type&;
    using traits = View;
    using host_mirror_space = HostSpace;
    struct dimension
    {
        static constexpr unsigned rank = R;
        static constexpr unsigned rank_dynamic = R;
    };
    using value_t = non_const_value_type;
    std::size_t stride(std::size_t i) const { return str[i]; }
    std::shared_ptr<non_const_value_type[]> own;
    value_type* p = nullptr;
    std::array<std::ptrdiff_t, 8> ext {};
    std::array<std::ptrdiff_t, 8> str {};
    std::string lab;
    View() = default;
    void setup()
    {
        std::ptrdiff_t n = 1;
        if constexpr (shim::right<P...>) {
            for (int i = R - 1; i >= 0; --i) {
                str[i] = n;
                n *= ext[i];
            }
        } else {
            for (int i = 0; i < R; ++i) {
                str[i] = n;
                n *= ext[i];
            }
        }
    }
    template <class... N>
        requires(sizeof...(N) <= R && (std::is_convertible_v<N, std::size_t> && ...))
    explicit View(std::string l, N... n) : lab(l)
    {
        int k = 0;
        ((ext[k++] = (std::ptrdiff_t)n), ...);
        setup();
        own = std::shared_ptr<non_const_value_type[]>(new non_const_value_type[size() ? size() : 1]());
        p = own.get();
    }
    template <class... N>
    explicit View(AllocProp a, N... n) : View(a.label, n...)
    {
    }
    template <class... N>
        requires(sizeof...(N) == R && (std::is_convertible_v<N, std::size_t> && ...))
    View(value_type* q, N... n) : p(q)
    {
        int k = 0;
        ((ext[k++] = (std::ptrdiff_t)n), ...);
        setup();
    }
    template <class D2, class... P2>
        requires(shim::Data<D2>::rank == R && std::is_convertible_v<typename shim::Data<D2>::value (*)[], value_type (*)[]>)
    View(View<D2, P2...> const& o) : own(o.own), p(o.p), ext(o.ext), str(o.str), lab(o.lab)
    {
    }
    template <class... I>
    value_type& operator()(I... i) const
    {
        static_assert(sizeof...(I) == R);
        std::ptrdiff_t ix[] = {(std::ptrdiff_t)i..., 0};
        std::ptrdiff_t o = 0;
        for (int k = 0; k < R; ++k) {
            if (ix[k] < 0 || ix[k] >= ext[k]) {
                std::fprintf(stderr, "out of bounds: dimension %d index %td extent %td of %s\n", k, ix[k], ext[k], lab.c_str());
                std::abort();
            }
            o += ix[k] * str[k];
        }
        return p[o];
    }
    value_type& operator[](std::ptrdiff_t i) const { return (*this)(i); }
    std::size_t extent(std::size_t i) const { return i < (std::size_t)R ? ext[i] : 1; }
    int extent_int(std::size_t i) const { return (int)extent(i); }
    std::size_t size() const
    {
        std::size_t n = 1;
        for (int i = 0; i < R; ++i) {
            n *= ext[i];
        }
        return n;
    }
    std::size_t span() const { return size(); }
    bool span_is_contiguous() const { return true; }
    value_type* data() const { return p; }
    std::string label() const { return lab; }
    bool is_allocated() const { return p; }
    long use_count() const { return own.use_count(); }
};
template <class D, class... P>
using ViewTraits = View<D, P...>;
template <class T>
struct is_view : std::false_type
{
};
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type
{
};
template <class T>
inline constexpr bool is_view_v = is_view<std::remove_cvref_t<T>>::value;
namespace shim {
template <class S>
inline constexpr bool keeps = !std::is_convertible_v<S, std::ptrdiff_t>;
}
template <class D, class... P, class... S>
auto subview(View<D, P...> const& v, S... s)
{
    using V = View<D, P...>;
    constexpr int K = (int(shim::keeps<S>) + ... + 0);
    using O = View<typename shim::MakeData<typename V::value_type, K>::type, typename V::array_layout>;
    O o;
    o.own = v.own;
    o.p = v.p;
    o.lab = v.lab;
    int k = 0;
    int q = 0;
    auto one = [&](auto x) {
        if constexpr (std::is_same_v<decltype(x), ALL_t>) {
            o.ext[q] = v.ext[k];
            o.str[q++] = v.str[k];
        } else if constexpr (shim::keeps<decltype(x)>) {
            o.p += x.first * v.str[k];
            o.ext[q] = x.second - x.first;
            o.str[q++] = v.str[k];
        } else {
            o.p += x * v.str[k];
        }
        ++k;
    };
    (one(s), ...);
    return o;
}
namespace shim {
template <int N, class F>
void each(std::array<std::ptrdiff_t, 8> const& e, F f)
{
    if constexpr (N == 0) {
        std::array<std::ptrdiff_t, 8> i {};
        f(i);
    } else {
        std::array<std::ptrdiff_t, 8> i {};
        for (int k = 0; k < N; ++k) {
            if (e[k] <= 0) {
                return;
            }
        }
        for (;;) {
            f(i);
            int k = 0;
            while (k < N && ++i[k] == e[k]) {
                i[k++] = 0;
            }
            if (k == N) {
                return;
            }
        }
    }
}
} // namespace shim
template <class D, class... P, class D2, class... P2>
void deep_copy(View<D, P...> const& d, View<D2, P2...> const& s)
{
    constexpr int N = shim::Data<D>::rank;
    shim::each<N>(d.ext, [&](auto const& i) {
        std::ptrdiff_t a = 0;
        std::ptrdiff_t b = 0;
        for (int k = 0; k < N; ++k) {
            if (d.ext[k] != s.ext[k]) {
                std::abort();
            }
            a += i[k] * d.str[k];
            b += i[k] * s.str[k];
        }
        d.p[a] = s.p[b];
    });
}
template <class D, class... P>
void deep_copy(View<D, P...> const& d, std::type_identity_t<typename View<D, P...>::non_const_value_type> v)
{
    constexpr int N = shim::Data<D>::rank;
    shim::each<N>(d.ext, [&](auto const& i) {
        std::ptrdiff_t a = 0;
        for (int k = 0; k < N; ++k) {
            a += i[k] * d.str[k];
        }
        d.p[a] = v;
    });
}
template <class D, class... P>
    requires(shim::Data<D>::rank == 0)
void deep_copy(typename View<D, P...>::non_const_value_type& d, View<D, P...> const& s)
{
    d = *s.p;
}
template <class E, class A, class B>
    requires(std::is_same_v<E, HostSpace>)
void deep_copy(E const&, A const& a, B const& b)
{
    deep_copy(a, b);
}
template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v)
{
    return v;
}
template <class S, class D, class... P>
auto create_mirror_view(S, View<D, P...> const& v)
{
    return v;
}
template <class T>
struct IndexType
{
};
enum class Iterate { Default, Left, Right };
template <int N, Iterate A = Iterate::Default, Iterate B = Iterate::Default>
struct Rank
{
    static constexpr int n = N;
};
template <class... A>
struct RangePolicy
{
    long lo, hi;
    RangePolicy(long a, long b) : lo(a), hi(b) {}
    template <class E>
        requires(!std::is_convertible_v<E, long>)
    RangePolicy(E, long a, long b) : lo(a), hi(b)
    {
    }
};
namespace shim {
template <class... A>
struct RankOf
{
};
template <int N, Iterate I, Iterate J, class... A>
struct RankOf<Rank<N, I, J>, A...>
{
    static constexpr int n = N;
};
template <class X, class... A>
struct RankOf<X, A...> : RankOf<A...>
{
};
} // namespace shim
template <class... A>
struct MDRangePolicy
{
    static constexpr int n = shim::RankOf<A...>::n;
    std::array<long, 8> lo {}, hi {};
    template <class T, class U>
    MDRangePolicy(Array<T, n> const& a, Array<U, n> const& b)
    {
        for (int i = 0; i < n; ++i) {
            lo[i] = a[i];
            hi[i] = b[i];
        }
    }
    MDRangePolicy(std::initializer_list<long> a, std::initializer_list<long> b)
    {
        std::copy(a.begin(), a.end(), lo.begin());
        std::copy(b.begin(), b.end(), hi.begin());
    }
    template <class E>
    MDRangePolicy(E, std::initializer_list<long> a, std::initializer_list<long> b) : MDRangePolicy(a, b)
    {
    }
};
namespace shim {
template <class... A, class F, class... R>
void go(RangePolicy<A...> const& p, F const& f, R&... r)
{
    for (long i = p.lo; i < p.hi; ++i) {
        f((int)i, r...);
    }
}
template <class... A, class F, class... R>
void go(MDRangePolicy<A...> const& p, F const& f, R&... r)
{
    constexpr int N = MDRangePolicy<A...>::n;
    std::array<std::ptrdiff_t, 8> e {};
    for (int k = 0; k < N; ++k) {
        e[k] = p.hi[k] - p.lo[k];
    }
    each<N>(e, [&](auto const& i) {
        [&]<std::size_t... K>(std::index_sequence<K...>) { f((int)(i[K] + p.lo[K])..., r...); }(std::make_index_sequence<N>());
    });
}
template <class F, class... R>
void go(long n, F const& f, R&... r)
{
    for (long i = 0; i < n; ++i) {
        f((int)i, r...);
    }
}
} // namespace shim
template <class Pol, class F>
void parallel_for(std::string const&, Pol const& p, F const& f)
{
    shim::go(p, f);
}
template <class Pol, class F>
    requires(!std::is_convertible_v<Pol, std::string>)
void parallel_for(Pol const& p, F const& f)
{
    shim::go(p, f);
}
template <class T>
struct Sum
{
    using value_type = T;
    T& t;
    explicit Sum(T& x) : t(x) {}
    template <class P>
    explicit Sum(View<T, P> const& v) : t(*v.p)
    {
    }
    static T id() { return T(0); }
};
template <class T>
struct Max
{
    using value_type = T;
    T& t;
    explicit Max(T& x) : t(x) {}
    template <class P>
    explicit Max(View<T, P> const& v) : t(*v.p)
    {
    }
    static T id() { return std::numeric_limits<T>::lowest(); }
};
template <class T>
struct Min
{
    using value_type = T;
    T& t;
    explicit Min(T& x) : t(x) {}
    template <class P>
    explicit Min(View<T, P> const& v) : t(*v.p)
    {
    }
    static T id() { return std::numeric_limits<T>::max(); }
};
template <class T, class... P>
Sum(View<T, P...> const&) -> Sum<T>;
template <class T, class... P>
Max(View<T, P...> const&) -> Max<T>;
template <class T, class... P>
Min(View<T, P...> const&) -> Min<T>;
namespace shim {
template <class R>
struct Acc
{
    using value_type = R;
    static R id() { return R(0); }
};
template <class R>
    requires requires { typename R::value_type; }
struct Acc<R>
{
    using value_type = typename R::value_type;
    static value_type id() { return R::id(); }
};
template <class R>
void put(R& r, typename Acc<R>::value_type v)
{
    if constexpr (requires { r.t; }) {
        r.t = v;
    } else {
        r = v;
    }
}
} // namespace shim
template <class Pol, class F, class... R>
void parallel_reduce(std::string const&, Pol const& p, F const& f, R&&... r)
{
    std::tuple<typename shim::Acc<std::remove_cvref_t<R>>::value_type...> a {shim::Acc<std::remove_cvref_t<R>>::id()...};
    std::apply([&](auto&... x) { shim::go(p, f, x...); }, a);
    std::apply([&](auto&... x) { (shim::put(r, x), ...); }, a);
}
template <class Pol, class F>
void parallel_scan(std::string const&, Pol const& p, F const& f)
{
    double u = 0;
    for (long i = p.lo; i < p.hi; ++i) {
        f((int)i, u, true);
    }
}
template <class Pol, class F, class R>
void parallel_scan(std::string const&, Pol const& p, F const& f, R& r)
{
    R u = 0;
    for (long i = p.lo; i < p.hi; ++i) {
        f((int)i, u, true);
    }
    r = u;
}
inline void fence(std::string const& = "") {}
namespace Profiling {
inline void pushRegion(std::string const&) {}
inline void popRegion() {}
} // namespace Profiling
struct ScopeGuard
{
    ScopeGuard(int&, char**) {}
};
inline void print_configuration(...) {}
} // namespace Kokkos
