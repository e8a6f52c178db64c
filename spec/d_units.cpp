// Units and physical constants: coherent SI system and reference values (CODATA 2018, IAU 2015).
#include "hv.hpp"
#include <units.hpp>
namespace u = hclpp::units;
namespace {
void near(char const* what, double v, double ref, double tol)
{
    hv_true(what, v > ref * (1 - tol) && v < ref * (1 + tol));
}
} // namespace
extern "C" {
void units_constants()
{
    near("Boltzmann constant", u::kb, 1.380649e-23, 1e-6);
    near("proton mass", u::mp, 1.67262192e-27, 1e-4);
    near("speed of light", u::c, 299792458., 1e-9);
    near("gravitational constant", u::G, 6.67430e-11, 1e-4);
    near("Planck constant", u::hplanck, 6.62607015e-34, 1e-6);
    near("electronvolt", u::eV, 1.602176634e-19, 1e-6);
    near("MeV", u::MeV, 1.602176634e-13, 1e-6);
    near("atomic mass unit", u::atomic_mass_unit, 1.66053907e-27, 1e-6);
    near("radiation constant", u::ar, 7.565733e-16, 1e-5);
    hv_eq("pi", u::pi, 3.14159265358979323846);
    near("astronomical unit", u::ua, 1.495978707e11, 1e-6);
    near("solar mass", u::Msun, 1.9885e30, 1e-3);
    near("solar radius", u::Rsun, 6.957e8, 2e-3);
    near("solar luminosity", u::Lsun, 3.828e26, 1e-3);
    near("parsec", u::pc, 3.0856775814914e16, 1e-6);
    near("kiloparsec", u::kpc, 3.0856775814914e19, 1e-6);
    near("megaparsec", u::Mpc, 3.0856775814914e22, 1e-6);
    near("minute", u::minute, 60, 1e-12);
    near("hour", u::hour, 3600, 1e-12);
    near("day", u::day, 86400, 1e-12);
    near("year", u::year, 365.25 * 86400, 1e-3);
    near("million years", u::Myrs, 365.25e6 * 86400, 1e-3);
    near("billion years", u::Gyrs, 365.25e9 * 86400, 1e-3);
    near("Hubble constant", u::H0, 70e3 / 3.0856775814914e22, 0.1);
}
void units_cgs()
{
    near("gram", u::g, 1e-3, 1e-12);
    near("centimetre", u::cm, 1e-2, 1e-12);
    near("density", u::dens_cgs, 1e3, 1e-12);
    near("velocity", u::cm_s, 1e-2, 1e-12);
    near("acceleration", u::acc_cgs, 1e-2, 1e-12);
    near("pressure", u::press_cgs, 1e-1, 1e-12);
    near("erg", u::erg, 1e-7, 1e-12);
    near("dyne", u::dyne, 1e-5, 1e-12);
    near("energy density", u::evol_cgs, 1e-1, 1e-12);
    near("specific energy", u::eint_cgs, 1e-4, 1e-12);
}
void units_si()
{
    double const one[] = {u::unit_M, u::unit_L, u::unit_T, u::kg, u::m, u::s, u::Kelvin, u::density, u::velocity, u::acc, u::pressure, u::Joule, u::Newton, u::Watt, u::evol, u::eint, u::Pascal};
    for (double const x : one) {
        near("coherent unit", x, 1, 1e-12);
    }
}
}
