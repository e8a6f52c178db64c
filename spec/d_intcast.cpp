// Checked integer conversion, for every pair of fundamental integer types and every value.
#include <int_cast.hpp>
#include <limits>
#include "hv.hpp"
using wide = __int128;
template <class R, class T>
void one()
{
    hv_exact_int(true);
    long const raw = hv_isym("t");
    using S = std::make_signed_t<T>;
    // bit pattern of t, read as a signed number
    hv_fact(raw - (long)std::numeric_limits<S>::min());
    hv_fact((long)std::numeric_limits<S>::max() - raw);
    T const t = static_cast<T>(raw);
    wide const m = t;
    hv_expect_throw(!(m >= (wide)std::numeric_limits<R>::min() && m <= (wide)std::numeric_limits<R>::max()));
    R const r = hclpp::int_cast<R>(t);
    hv_true("the value is kept", (wide)r == m);
}
#define P(R, T, N) \
    void N() { one<R, T>(); }
#define Q(R, N) \
    P(R, signed char, N##_sc) P(R, unsigned char, N##_uc) P(R, short, N##_s) P(R, unsigned short, N##_us) P(R, int, N##_i) P(R, unsigned, N##_u) \
            P(R, long, N##_l) P(R, unsigned long, N##_ul) P(R, long long, N##_ll) P(R, unsigned long long, N##_ull)
extern "C" {
Q(signed char, ic_sc)
Q(unsigned char, ic_uc)
Q(short, ic_s)
Q(unsigned short, ic_us)
Q(int, ic_i)
Q(unsigned, ic_u)
Q(long, ic_l)
Q(unsigned long, ic_ul)
Q(long long, ic_ll)
Q(unsigned long long, ic_ull)
}
