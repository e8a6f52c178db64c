// An arbitrary setup: only declarations, every operation is left uninterpreted.
#pragma once
#include <array>
#include <eos.hpp>
#include <grid_type.hpp>
#include <inih/INIReader.hpp>
#include <kokkos_shortcut.hpp>
#include <shift_criterion_interface.hpp>
#include <user_step.hpp>
#include "boundary.hpp"
#include "initialization_interface.hpp"
namespace hclpp {
class Grid;
class Param;
class Range;
class ParamSetup
{
public:
    double something;
    explicit ParamSetup(INIReader const& reader);
};
template <class Gravity>
void setup_initialization(EOS const& eos, ParamSetup const& param, Gravity const& gravity, Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P,
        KV_double_4d const& fx);
template <class Gravity>
void setup_boundary(EOS const& eos, ParamSetup const& param, Grid const& grid, Gravity const& gravity, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx);
void setup_grid(Param const& param, std::array<int, 3> const& Nghost, std::array<int, 3> const& Nx_glob_ng, KVH_double_1d const& x0_glob, KVH_double_1d const& x1_glob, KVH_double_1d const& x2_glob);
void setup_user_step(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx);
auto setup_shift_criterion(ParamSetup const& param, Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) -> bool;
template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
    EOS m_eos;
    ParamSetup m_param;
    Gravity m_gravity;

public:
    InitializationSetup(EOS const& eos, ParamSetup const& param, Gravity const& gravity) : m_eos(eos), m_param(param), m_gravity(gravity) {}
    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) const final
    {
        setup_initialization(m_eos, m_param, m_gravity, range, grid, rho, u, P, fx);
    }
};
template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
    EOS m_eos;
    ParamSetup m_param;

public:
    BoundarySetup(int idim, int iface, EOS const& eos, ParamSetup const& param) : IBoundaryCondition<Gravity>(idim, iface), m_eos(eos), m_param(param) {}
    void execute(Grid const& grid, Gravity const& gravity, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        setup_boundary(m_eos, m_param, grid, gravity, rho, rhou, E, fx);
    }
};
class GridSetup : public IGridType
{
    Param const* m_param;

public:
    explicit GridSetup(Param const& param) : m_param(&param) {}
    void execute(std::array<int, 3> Nghost, std::array<int, 3> Nx_glob_ng, KVH_double_1d const& x0_glob, KVH_double_1d const& x1_glob, KVH_double_1d const& x2_glob) const final
    {
        setup_grid(*m_param, Nghost, Nx_glob_ng, x0_glob, x1_glob, x2_glob);
    }
};
class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final { setup_user_step(range, t, dt, rho, E, fx); }
};
class UserShiftCriterion : public IShiftCriterion
{
    ParamSetup m_param;

public:
    explicit UserShiftCriterion(ParamSetup const& param) : m_param(param) {}
    [[nodiscard]] auto execute(Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) const -> bool final
    {
        return setup_shift_criterion(m_param, range, grid, rho, rhou, E, fx);
    }
};
} // namespace hclpp
