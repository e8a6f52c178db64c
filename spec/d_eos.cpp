// Ideal-gas and radiating-gas thermodynamics against their textbook definitions.
#include <cmath>
#include <eos.hpp>
#include <perfect_gas.hpp>
#include <rad_gas.hpp>
#include <units.hpp>
#include "euler_equations.hpp"
#include "hv.hpp"
using namespace hclpp;
using PG = thermodynamics::PerfectGas;
using RG = thermodynamics::RadGas;

static PG const& gas() { return *static_cast<PG const*>(hv_obj("gas")); }

extern "C" void pg_props()
{
    double const gamma = hv_pos("gamma");
    double const mmw = hv_pos("mmw");
    hv_assume(gamma > 1);
    PG const eos(gamma, mmw);
    double const rho = hv_pos("rho");
    double const P = hv_pos("P");
    double const T = hv_pos("T");
    double const e = hv_pos("e");
    double const Rs = units::kb / (mmw * units::mp);
    hv_eq("pres(T)", eos.compute_pres_from_temp(rho, T), rho * Rs * T);
    hv_eq("evol(P)", eos.compute_evol_from_pres(rho, P), P / (gamma - 1));
    hv_eq("pres(e)", eos.compute_pres_from_evol(rho, e), (gamma - 1) * e);
    hv_eq("evol(T)", eos.compute_evol_from_temp(rho, T), rho * Rs * T / (gamma - 1));
    hv_eq("temp(P)", eos.compute_temp_from_pres(rho, P), P / (rho * Rs));
    hv_eq("temp(e)", eos.compute_temp_from_evol(rho, e), (gamma - 1) * e / (rho * Rs));
    hv_eq("c", eos.compute_speed_of_sound(rho, P), std::sqrt(gamma * P / rho));
    hv_eq("gamma", eos.adiabatic_index(), gamma);
    hv_eq("mmw", eos.mean_molecular_weight(), mmw);
}

// constructors accept exactly the physical parameters
extern "C" void pg_ctor()
{
    hv_ieee(true);
    double const g = hv_sym("gamma");
    double const m = hv_sym("mmw");
    hv_expect_throw(!(std::isfinite(g) && std::isfinite(m) && g > 1 && m > 0));
    PG const eos(g, m);
    hv_eq("gamma", eos.adiabatic_index(), g);
    hv_eq("mmw", eos.mean_molecular_weight(), m);
}
extern "C" void rg_ctor()
{
    hv_ieee(true);
    double const g = hv_sym("gamma");
    double const m = hv_sym("mmw");
    hv_expect_throw(!(std::isfinite(g) && std::isfinite(m) && g > 1 && m > 0));
    RG const eos(g, m);
    hv_eq("gamma", eos.adiabatic_index(), g);
    hv_eq("mmw", eos.mean_molecular_weight(), m);
}
extern "C" void eos_valid()
{
    hv_ieee(true);
    double const r = hv_sym("rho");
    double const p = hv_sym("P");
    bool const ok = std::isfinite(r) && r > 0 && std::isfinite(p) && p > 0;
    hv_eqb("perfect gas validity", PG::is_valid(r, p), ok);
    hv_eqb("radiating gas validity", RG::is_valid(r, p), ok);
}
extern "C" void rg_props()
{
    double const gamma = hv_pos("gamma");
    double const mmw = hv_pos("mmw");
    hv_assume(gamma > 1);
    RG const eos(gamma, mmw);
    double const rho = hv_pos("rho");
    double const T = hv_pos("T");
    double const Pg = rho * units::kb * T / (mmw * units::mp);
    double const Pr = units::ar * T * T * T * T / 3;
    hv_eq("pres(T)", eos.compute_pres_from_temp(rho, T), Pg + Pr);
    hv_eq("evol(T)", eos.compute_evol_from_temp(rho, T), Pg / (gamma - 1) + 3 * Pr);
}
// Newton inversions: analysed at an arbitrary iterate (see checks.py)
extern "C" double rg_newton_p()
{
    double const gamma = hv_pos("gamma");
    hv_assume(gamma > 1);
    RG const eos(gamma, hv_pos("mmw"));
    return eos.compute_temp_from_pres(hv_pos("rho"), hv_pos("P"));
}
extern "C" double rg_newton_e()
{
    double const gamma = hv_pos("gamma");
    hv_assume(gamma > 1);
    RG const eos(gamma, hv_pos("mmw"));
    return eos.compute_temp_from_evol(hv_pos("rho"), hv_pos("P"));
}
// residual and its derivative at temperature T
extern "C" Kokkos::Array<double, 2> rg_resid_p()
{
    double const gamma = hv_pos("gamma");
    hv_assume(gamma > 1);
    RG const eos(gamma, hv_pos("mmw"));
    double const T = hv_sym("T");
    double const rho = hv_pos("rho");
    double const k = rho * units::kb / (eos.mean_molecular_weight() * units::mp);
    return {units::ar * T * T * T * T / 3 + k * T - hv_pos("P"), 4 * units::ar * T * T * T / 3 + k};
}
extern "C" Kokkos::Array<double, 2> rg_resid_e()
{
    double const gamma = hv_pos("gamma");
    hv_assume(gamma > 1);
    RG const eos(gamma, hv_pos("mmw"));
    double const T = hv_sym("T");
    double const rho = hv_pos("rho");
    double const k = rho * units::kb / (eos.mean_molecular_weight() * units::mp * (eos.adiabatic_index() - 1));
    return {units::ar * T * T * T * T + k * T - hv_pos("P"), 4 * units::ar * T * T * T + k};
}
extern "C" void rg_composite()
{
    hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_pres", "pos:TP");
    hv_opaque("hclpp::thermodynamics::RadGas::compute_temp_from_evol", "pos:TE");
    double const gamma = hv_pos("gamma");
    double const mmw = hv_pos("mmw");
    hv_assume(gamma > 1);
    RG const eos(gamma, mmw);
    double const rho = hv_pos("rho");
    double const P = hv_pos("P");
    double const e = hv_pos("e");
    double const R = units::kb / (mmw * units::mp);
    double const TP = hv_fn2("pos:TP", rho, P);
    double const TE = hv_fn2("pos:TE", rho, e);
    auto const p4 = [](double t) { return t * t * t * t; };
    hv_eq("evol(P)", eos.compute_evol_from_pres(rho, P), rho * R * TP / (gamma - 1) + units::ar * p4(TP));
    hv_eq("pres(e)", eos.compute_pres_from_evol(rho, e), rho * R * TE + units::ar * p4(TE) / 3);
    double const Pg = rho * R * TP;
    double const Pr = units::ar * p4(TP) / 3;
    double const a = Pr / Pg;
    // generalised adiabatic exponent of a mixture of ideal gas and radiation
    double const ge = (gamma / (gamma - 1) + 20 * a + 16 * a * a) / (1 / (gamma - 1) + 12 * a);
    double const c = eos.compute_speed_of_sound(rho, P);
    hv_eq("c squared", c * c, ge * Pg / rho);
    hv_true("c >= 0", c >= 0);
}
