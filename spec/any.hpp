// Arbitrary thermodynamics / gravity / solver / limiter: uninterpreted functions.
#pragma once
#include "hv.hpp"
#include <ndim.hpp>
#include "euler_equations.hpp"
namespace any {
struct Eos
{
    double compute_evol_from_pres(double rho, double P) const noexcept { return hv_fn2("inv:evol", rho, P); }
    double compute_pres_from_evol(double rho, double e) const noexcept { return hv_fn2("inv:evol'", rho, e); }
    double compute_speed_of_sound(double rho, double P) const noexcept { return hv_fn2("pos:sound", rho, P); }
    double compute_temp_from_pres(double rho, double P) const noexcept { return hv_fn2("tempP", rho, P); }
    double compute_temp_from_evol(double rho, double e) const noexcept { return hv_fn2("tempE", rho, e); }
    double compute_evol_from_temp(double rho, double T) const noexcept { return hv_fn2("evolT", rho, T); }
    double compute_pres_from_temp(double rho, double T) const noexcept { return hv_fn2("presT", rho, T); }
};
// nd-dependent component names
inline char const* nm(int k)
{
    static char const* const t[] = {"a0", "a1", "a2"};
    return t[k];
}
} // namespace any
