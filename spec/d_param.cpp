// Every run parameter is what the input file says under its documented section and name, or its documented default.
#include "hv.hpp"
#include <inih/INIReader.hpp>
#include "param.hpp"
using hclpp::Param;
namespace {
INIReader const& rd() { return *static_cast<INIReader const*>(hv_obj("ini")); }
void str(std::string const& v, char const* s, char const* n, char const* d)
{
    std::string const w = rd().Get(s, n, d);
    hv_streq(n, &v, &w);
}
void integer(int v, char const* s, char const* n, int d) { hv_eqi(n, v, rd().GetInteger(s, n, d)); }
void real(double v, char const* s, char const* n, double d) { hv_eq(n, v, rd().GetReal(s, n, d)); }
void flag(bool v, char const* s, char const* n, bool d) { hv_eqb(n, v, rd().GetBoolean(s, n, d)); }
void all(Param const& p)
{
    str(p.problem, "Problem", "type", "ShockTube");
    flag(p.restart, "Problem", "restart", false);
    str(p.restart_file, "Problem", "restart_file", "None");
    real(p.rmax_shift, "Problem", "rmax_shift", 1E20);
    integer(p.Nx_glob_ng[0], "Grid", "Nx0_glob", 0);
    integer(p.Nx_glob_ng[1], "Grid", "Nx1_glob", 0);
    integer(p.Nx_glob_ng[2], "Grid", "Nx2_glob", 0);
    str(p.grid_type, "Grid", "type", "Regular");
    integer(p.Ng, "Grid", "Nghost", 2);
    real(p.x0min, "Grid", "x0min", 0);
    real(p.x0max, "Grid", "x0max", 1);
    real(p.x1min, "Grid", "x1min", 0);
    real(p.x1max, "Grid", "x1max", 1);
    real(p.x2min, "Grid", "x2min", 0);
    real(p.x2max, "Grid", "x2max", 1);
    str(p.shift_grid, "Grid", "shift_grid", "Off");
    flag(p.mpi_device_aware, "Parallelization", "mpi_device_aware", false);
    integer(p.mpi_dims_cart[0], "Parallelization", "mpi_dims_cart_x0", 0);
    integer(p.mpi_dims_cart[1], "Parallelization", "mpi_dims_cart_x1", 0);
    integer(p.mpi_dims_cart[2], "Parallelization", "mpi_dims_cart_x2", 0);
    real(p.t_ini, "Run", "t_ini", 0);
    real(p.t_end, "Run", "t_end", 0.2);
    real(p.cfl, "Run", "cfl", 0.4);
    integer(p.max_iter, "Output", "max_iter", 10000);
    integer(p.iter_output_frequency, "Output", "iter_frequency", 0);
    real(p.time_output_frequency, "Output", "time_frequency", 0);
    real(p.time_first_output, "Output", "time_first_output", rd().GetReal("Run", "t_ini", 0.) + rd().GetReal("Output", "time_frequency", 0.));
    str(p.directory, "Output", "directory", ".");
    str(p.prefix, "Output", "prefix", "result");
    integer(p.time_job, "Output", "time_job", 20);
    str(p.reconstruction_type, "Hydro", "reconstruction", "VanLeer");
    str(p.riemann_solver, "Hydro", "riemann_solver", "HLL");
    real(p.gx0, "Gravity", "gx0", 0);
    real(p.gx1, "Gravity", "gx1", 0);
    real(p.gx2, "Gravity", "gx2", 0);
    real(p.M, "Gravity", "M", 1);
    real(p.gamma, "Perfect Gas", "gamma", 5. / 3);
    real(p.mu, "Perfect Gas", "mu", 1);
    str(p.bc_choice, "Boundary Condition", "BC", "");
    str(p.bc_priority, "Boundary Condition", "priority", "");
    integer(p.nfx, "Passive Scalar", "nfx", 0);
    str(p.user_step, "User step", "user_step", "Off");
    str(p.pressure_fix, "Pressure fix", "pressure_fix", "Off");
    real(p.eps_pf, "Pressure fix", "eps_pf", 0.000001);
    // the reader kept for the setups answers like the input
    hv_eq("the kept reader answers like the input", p.reader.GetReal("Initialisation", "any", 3.), rd().GetReal("Initialisation", "any", 3.));
}
// every member equal, whatever the values
void same(Param const& p, Param const& q)
{
    hv_streq("problem", &p.problem, &q.problem);
    hv_eqb("restart", p.restart, q.restart);
    hv_streq("restart_file", &p.restart_file, &q.restart_file);
    hv_eq("rmax_shift", p.rmax_shift, q.rmax_shift);
    hv_eqi("Nx_glob_ng[0]", p.Nx_glob_ng[0], q.Nx_glob_ng[0]);
    hv_eqi("Nx_glob_ng[1]", p.Nx_glob_ng[1], q.Nx_glob_ng[1]);
    hv_eqi("Nx_glob_ng[2]", p.Nx_glob_ng[2], q.Nx_glob_ng[2]);
    hv_streq("grid_type", &p.grid_type, &q.grid_type);
    hv_eqi("Ng", p.Ng, q.Ng);
    hv_eq("x0min", p.x0min, q.x0min);
    hv_eq("x0max", p.x0max, q.x0max);
    hv_eq("x1min", p.x1min, q.x1min);
    hv_eq("x1max", p.x1max, q.x1max);
    hv_eq("x2min", p.x2min, q.x2min);
    hv_eq("x2max", p.x2max, q.x2max);
    hv_streq("shift_grid", &p.shift_grid, &q.shift_grid);
    hv_eqb("mpi_device_aware", p.mpi_device_aware, q.mpi_device_aware);
    hv_eqi("mpi_dims_cart[0]", p.mpi_dims_cart[0], q.mpi_dims_cart[0]);
    hv_eqi("mpi_dims_cart[1]", p.mpi_dims_cart[1], q.mpi_dims_cart[1]);
    hv_eqi("mpi_dims_cart[2]", p.mpi_dims_cart[2], q.mpi_dims_cart[2]);
    hv_eq("t_ini", p.t_ini, q.t_ini);
    hv_eq("t_end", p.t_end, q.t_end);
    hv_eq("cfl", p.cfl, q.cfl);
    hv_eqi("max_iter", p.max_iter, q.max_iter);
    hv_eqi("iter_output_frequency", p.iter_output_frequency, q.iter_output_frequency);
    hv_eq("time_output_frequency", p.time_output_frequency, q.time_output_frequency);
    hv_eq("time_first_output", p.time_first_output, q.time_first_output);
    hv_streq("directory", &p.directory, &q.directory);
    hv_streq("prefix", &p.prefix, &q.prefix);
    hv_eqi("time_job", p.time_job, q.time_job);
    hv_streq("reconstruction_type", &p.reconstruction_type, &q.reconstruction_type);
    hv_streq("riemann_solver", &p.riemann_solver, &q.riemann_solver);
    hv_eq("gx0", p.gx0, q.gx0);
    hv_eq("gx1", p.gx1, q.gx1);
    hv_eq("gx2", p.gx2, q.gx2);
    hv_eq("M", p.M, q.M);
    hv_eq("gamma", p.gamma, q.gamma);
    hv_eq("mu", p.mu, q.mu);
    hv_streq("bc_choice", &p.bc_choice, &q.bc_choice);
    hv_streq("bc_priority", &p.bc_priority, &q.bc_priority);
    hv_eqi("nfx", p.nfx, q.nfx);
    hv_streq("user_step", &p.user_step, &q.user_step);
    hv_streq("pressure_fix", &p.pressure_fix, &q.pressure_fix);
    hv_eq("eps_pf", p.eps_pf, q.eps_pf);
    hv_eq("reader", p.reader.GetReal("s", "n", 3.), q.reader.GetReal("s", "n", 3.));
}
} // namespace
extern "C" {
void param_ctor()
{
    Param const p(rd());
    all(p);
}
void param_copy()
{
    Param const& p = *static_cast<Param const*>(hv_obj("param"));
    Param const q(p);
    same(p, q);
}
void param_move()
{
    Param const& p = *static_cast<Param const*>(hv_obj("param"));
    Param const q(p);
    Param const r(static_cast<Param&&>(const_cast<Param&>(p)));
    same(q, r);
}
void param_assign()
{
    Param const& p = *static_cast<Param const*>(hv_obj("param"));
    Param& q = *static_cast<Param*>(hv_obj("other"));
    q = p;
    same(p, q);
    Param& r = *static_cast<Param*>(hv_obj("third"));
    r = static_cast<Param&&>(q);
    same(p, r);
}
}
