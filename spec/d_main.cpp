// The main program against a plain statement of what a run does, step by step.
#include <array>
#include <chrono>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <mpi.h>
#include <paraconf.h>
#include <pdi.h>
#include <inih/INIReader.hpp>
#include <Kokkos_Core.hpp>
#include <array_conversion.hpp>
#include <dual_view.hpp>
#include <eos.hpp>
#include <extrapolation_reconstruction.hpp>
#include <face_reconstruction.hpp>
#include <godunov_scheme.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <hydro_reconstruction.hpp>
#include <integration.hpp>
#include <internal_energy.hpp>
#include <io.hpp>
#include <config.yaml.hpp>
#include <kokkos_shortcut.hpp>
#include <moving_grid.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <pressure_fix.hpp>
#include <range.hpp>
#include <temperature.hpp>
#include <time_step.hpp>
#include <user_step.hpp>
#include <user_step_factory.hpp>
#include "boundary.hpp"
#include "boundary_distribute.hpp"
#include "boundary_factory.hpp"
#include "initialization_interface.hpp"
#include "mpi_scope_guard.hpp"
#include "setup.hpp"
#include "shift_criterion_interface.hpp"
#include "hv.hpp"
namespace hclpp {
// ------------------------------------------------------------------ stand-ins for the parts studied on their own
template <class D>
using Read = decltype(std::declval<D const&>()(host, read_only));
template <class D>
using Write = decltype(std::declval<D const&>()(host));
using H1 = Read<KDV_cdouble_1d>;
using H3 = Read<KDV_cdouble_3d>;
using H4 = Read<KDV_cdouble_4d>;
using W1 = Write<KDV_double_1d>;
using W3 = Write<KDV_double_3d>;
using W4 = Write<KDV_double_4d>;
void step_write(std::string const& directory, std::string const& prefix, int output_id, int iter_output_id, int time_output_id, int iter, double t, double gamma, Grid const& grid,
        H3 const& rho, H4 const& u, H3 const& P, H3 const& E, H1 const& x0, H1 const& x1, H1 const& x2, H4 const& fx, H3 const& T);
void step_read(std::string const& file, int& output_id, int& iter_output_id, int& time_output_id, int& iter, double& t,
        W3 const& rho,
        W4 const& u,
        W3 const& P,
        W4 const& fx,
        W1 const& x0, W1 const& x1, W1 const& x2);
void step_index(std::string const& directory, std::string const& prefix, int nfx, Grid const& grid, int output_id, std::vector<std::pair<int, double>> const& outputs_record, H1 const& x0, H1 const& x1, H1 const& x2);
void step_shift(KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx, KV_double_3d const& rho_new, KV_double_4d const& rhou_new, KV_double_3d const& E_new,
        KV_double_4d const& fx_new, W1 const& x0, H1 const& x1, H1 const& x2, Grid& grid);
void write_pdi(std::string const& directory, std::string const& prefix, int output_id, int iter_output_id, int time_output_id, int iter, double t, double gamma, Grid const& grid, KDV_cdouble_3d const& rho,
        KDV_cdouble_4d const& u, KDV_cdouble_3d const& P, KDV_cdouble_3d const& E, KDV_cdouble_1d const& x0, KDV_cdouble_1d const& x1, KDV_cdouble_1d const& x2, KDV_cdouble_4d const& fx, KDV_cdouble_3d const& T)
{
    step_write(directory, prefix, output_id, iter_output_id, time_output_id, iter, t, gamma, grid, rho(host, read_only), u(host, read_only), P(host, read_only), E(host, read_only), x0(host, read_only),
            x1(host, read_only), x2(host, read_only), fx(host, read_only), T(host, read_only));
}
void read_pdi(std::string const& restart_file, int& output_id, int& iter_output_id, int& time_output_id, int& iter, double& t, KDV_double_3d const& rho, KDV_double_4d const& u, KDV_double_3d const& P,
        KDV_double_4d const& fx, KDV_double_1d const& x0_glob, KDV_double_1d const& x1_glob, KDV_double_1d const& x2_glob)
{
    step_read(restart_file, output_id, iter_output_id, time_output_id, iter, t, rho(host), u(host), P(host), fx(host), x0_glob(host), x1_glob(host), x2_glob(host));
}
struct Names
{
    std::string directory;
    std::string prefix;
    int nfx;
};
XmlWriter::XmlWriter(std::string directory, std::string prefix, int nfx) : m_directory(std::move(directory)), m_prefix(std::move(prefix))
{
    reinterpret_cast<int&>(m_var_names) = nfx;
}
void XmlWriter::operator()(Grid const& grid, int output_id, std::vector<std::pair<int, double>> const& outputs_record, KDV_cdouble_1d const& x0, KDV_cdouble_1d const& x1, KDV_cdouble_1d const& x2) const
{
    step_index(m_directory, m_prefix, reinterpret_cast<int const&>(m_var_names), grid, output_id, outputs_record, x0(host, read_only), x1(host, read_only), x2(host, read_only));
}
void shift_grid(KV_cdouble_3d const& rho_old, KV_cdouble_4d const& rhou_old, KV_cdouble_3d const& E_old, KV_cdouble_4d const& fx_old, KV_double_3d const& rho_new, KV_double_4d const& rhou_new,
        KV_double_3d const& E_new, KV_double_4d const& fx_new, KDV_double_1d const& x0_glob, KDV_double_1d const& x1_glob, KDV_double_1d const& x2_glob, Grid& grid)
{
    step_shift(rho_old, rhou_old, E_old, fx_old, rho_new, rhou_new, E_new, fx_new, x0_glob(host), x1_glob(host, read_only), x2_glob(host, read_only), grid);
}
void step_grid_type(std::string const& name, Param const& param, std::array<int, 3> const& Nghost, std::array<int, 3> const& Nx_glob_ng, KVH_double_1d const& x0_glob, KVH_double_1d const& x1_glob,
        KVH_double_1d const& x2_glob);
void step_user_step(std::string const& name, Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx);
namespace {
class AnyGridType : public IGridType
{
    std::string m_name;
    Param const* m_param;

public:
    AnyGridType(std::string name, Param const& param) : m_name(std::move(name)), m_param(&param) {}
    void execute(std::array<int, 3> Nghost, std::array<int, 3> Nx_glob_ng, KVH_double_1d const& x0_glob, KVH_double_1d const& x1_glob, KVH_double_1d const& x2_glob) const final
    {
        step_grid_type(m_name, *m_param, Nghost, Nx_glob_ng, x0_glob, x1_glob, x2_glob);
    }
};
class AnyFaceReconstruction : public IFaceReconstruction
{
    std::string m_name;

public:
    explicit AnyFaceReconstruction(std::string name) : m_name(std::move(name)) {}
    void execute(Range const&, Grid const&, KV_cdouble_3d const&, KV_double_5d const&) const final {}
};
class AnyUserStep : public IUserStep
{
    std::string m_name;

public:
    explicit AnyUserStep(std::string name) : m_name(std::move(name)) {}
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final { step_user_step(m_name, range, t, dt, rho, E, fx); }
};
} // namespace
auto factory_grid_type(std::string const& name, Param const& param) -> std::unique_ptr<IGridType> { return std::make_unique<AnyGridType>(name, param); }
auto factory_face_reconstruction(std::string const& name) -> std::unique_ptr<IFaceReconstruction> { return std::make_unique<AnyFaceReconstruction>(name); }
auto factory_user_step(std::string const& name) -> std::unique_ptr<IUserStep> { return std::make_unique<AnyUserStep>(name); }
} // namespace hclpp
// ------------------------------------------------------------------ what a run does
namespace hclpp::reference {
#if defined(HERACLESPP_GRAVITY_Uniform)
using Gravity = UniformGravity;
auto gravity_of(Param const& p, Grid const&, KV_cdouble_3d const&) -> Gravity { return make_uniform_gravity(p.gx0, p.gx1, p.gx2); }
#elif defined(HERACLESPP_GRAVITY_Point_mass)
using Gravity = PointMassGravity;
auto gravity_of(Param const& p, Grid const& grid, KV_cdouble_3d const&) -> Gravity { return make_point_mass_gravity(p.M, grid); }
#else
using Gravity = InternalMassGravity;
auto gravity_of(Param const& p, Grid const& grid, KV_cdouble_3d const& rho) -> Gravity { return make_internal_mass_gravity(p.M, grid, rho); }
#endif
void run(int argc, char** argv)
{
    if (argc < 2) {
        throw std::runtime_error("usage");
    }
    INIReader const reader(argv[1]);
    // the input/output description: the last --pdi-config option, else the built-in one
    char const* description = nullptr;
    for (int i = 2; i < argc; ++i) {
        std::string const a(argv[i]);
        if (a.substr(0, 13) == "--pdi-config=") {
            description = argv[i] + 13;
        }
    }
    PC_tree_t conf = description != nullptr && *description != '\0' ? PC_parse_path(description) : PC_parse_string(io_config);
    PDI_init(conf);

    Param const param(reader);
    ParamSetup const setup(reader);
    Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
    EOS const eos(param.gamma, param.mu);
    write_pdi_init(grid, param);

    // boundary conditions: BC, then BC_X0, then BC_X0_left
    char const* const dir[3] = {"BC_X0", "BC_X1", "BC_X2"};
    std::string face[6];
    for (int d = 0; d < ndim; ++d) {
        std::string const all = reader.Get("Boundary Condition", dir[d], param.bc_choice);
        face[2 * d] = reader.Get("Boundary Condition", std::string(dir[d]) + "_left", all);
        if (face[2 * d].empty()) {
            throw std::runtime_error("undefined");
        }
        face[2 * d + 1] = reader.Get("Boundary Condition", std::string(dir[d]) + "_right", all);
        if (face[2 * d + 1].empty()) {
            throw std::runtime_error("undefined");
        }
    }

    // arrays
    int const n0 = grid.Nx_local_wg[0];
    int const n1 = grid.Nx_local_wg[1];
    int const n2 = grid.Nx_local_wg[2];
    KDV_double_3d const rho("", n0, n1, n2), E("", n0, n1, n2), P("", n0, n1, n2), T("", n0, n1, n2);
    KDV_double_4d const rhou("", n0, n1, n2, ndim), u("", n0, n1, n2, ndim), fx("", n0, n1, n2, param.nfx);
    KV_double_5d const rho_f("", n0, n1, n2, 2, ndim), E_f("", n0, n1, n2, 2, ndim), P_f("", n0, n1, n2, 2, ndim);
    KV_double_6d const rhou_f("", n0, n1, n2, 2, ndim, ndim), u_f("", n0, n1, n2, 2, ndim, ndim), fx_f("", n0, n1, n2, 2, ndim, param.nfx);
    KV_double_3d const rho1("", n0, n1, n2), E1("", n0, n1, n2);
    KV_double_4d const rhou1("", n0, n1, n2, ndim), fx1("", n0, n1, n2, param.nfx);
    KDV_double_1d const x0("", grid.Nx_glob_ng[0] + 2 * grid.Nghost[0] + 1), x1("", grid.Nx_glob_ng[1] + 2 * grid.Nghost[1] + 1), x2("", grid.Nx_glob_ng[2] + 2 * grid.Nghost[2] + 1);

    // initial state: file or setup (the initial gravity is that of the file, or of the empty domain)
    std::unique_ptr<Gravity> g;
    int outputs = -1; // index of the last output
    int iter_outputs = -1;
    int time_outputs = -1;
    int iter = 0;
    double t = param.t_ini;
    std::vector<std::pair<int, double>> record;
    if (param.restart) {
        read_pdi(param.restart_file, outputs, iter_outputs, time_outputs, iter, t, rho, u, P, fx, x0, x1, x2);
        grid.set_grid(x0(device, read_only), x1(device, read_only), x2(device, read_only));
        g = std::make_unique<Gravity>(gravity_of(param, grid, rho(device, read_only)));
    } else {
        if (param.grid_type == "UserDefined") {
            GridSetup(param).execute(grid.Nghost, grid.Nx_glob_ng, x0(host), x1(host), x2(host));
        } else {
            factory_grid_type(param.grid_type, param)->execute(grid.Nghost, grid.Nx_glob_ng, x0(host), x1(host), x2(host));
        }
        grid.set_grid(x0(device, read_only), x1(device, read_only), x2(device, read_only));
        g = std::make_unique<Gravity>(gravity_of(param, grid, rho(device, read_only)));
        InitializationSetup<Gravity>(eos, setup, *g).execute(grid.range.no_ghosts(), grid, rho(device), u(device), P(device), fx(device));
    }

    std::array<std::unique_ptr<IBoundaryCondition<Gravity>>, nfaces> conditions;
    for (int f = 0; f < nfaces; ++f) {
        if (face[f] == "UserDefined") {
            conditions[f] = std::make_unique<BoundarySetup<Gravity>>(f / 2, f % 2, eos, setup);
        } else {
            conditions[f] = factory_boundary_construction<Gravity>(face[f], f / 2, f % 2);
        }
    }
    DistributedBoundaryCondition const boundary(grid, param);
    MUSCLHancockHydroReconstruction<EOS, Gravity> const reconstruction(
            factory_face_reconstruction(param.reconstruction_type),
            std::make_unique<HancockExtrapolationReconstruction<EOS, Gravity>>(eos),
            eos,
            P_f,
            u_f);
    std::unique_ptr<IGodunovScheme<Gravity>> const godunov = factory_godunov_scheme<EOS, Gravity>(param.riemann_solver, eos);
    std::unique_ptr<IUserStep> source;
    if (param.user_step == "UserDefined") {
        source = std::make_unique<UserStep>();
    } else {
        source = factory_user_step(param.user_step);
    }
    bool moving = param.shift_grid == "UserDefined";
    UserShiftCriterion const criterion(setup);

    Range const& range = grid.range;
    conv_prim_to_cons(range.no_ghosts(), eos, rho(device, read_only), u(device, read_only), P(device, read_only), rhou(device), E(device));
    boundary(conditions, grid, *g, rho(device), rhou(device), E(device), fx(device));
    g = std::make_unique<Gravity>(gravity_of(param, grid, rho(device, read_only)));
    conv_cons_to_prim(range.all_ghosts(), eos, rho(device, read_only), rhou(device, read_only), E(device, read_only), u(device), P(device));

    auto const dump = [&]() {
        temperature(range.all_ghosts(), eos, rho(device, read_only), P(device, read_only), T(device));
        ++outputs;
        write_pdi(
                param.directory,
                param.prefix,
                outputs,
                iter_outputs,
                time_outputs,
                iter,
                t,
                eos.adiabatic_index(),
                grid,
                rho.const_view(),
                u.const_view(),
                P.const_view(),
                E.const_view(),
                x0.const_view(),
                x1.const_view(),
                x2.const_view(),
                fx.const_view(),
                T.const_view());
    };
    XmlWriter const xml(param.directory, param.prefix, param.nfx);
    auto const output = [&]() {
        record.emplace_back(iter, t);
        xml(grid, outputs + 1, record, x0.const_view(), x1.const_view(), x2.const_view());
        dump();
    };

    if (!param.restart && (param.iter_output_frequency > 0 || param.time_output_frequency > 0)) {
        ++iter_outputs;
        output();
    }

    MPI_Barrier(grid.comm_cart);
    std::chrono::steady_clock::time_point const start = std::chrono::steady_clock::now();
    bool last = false;
    while (!last) {
        // the time step, clipped to reach the next output and the final time exactly
        double dt = param.cfl * time_step(range.all_ghosts(), eos, grid, rho(device, read_only), u(device, read_only), P(device, read_only));
        bool due = false;
        if (param.iter_output_frequency > 0 && iter + 1 >= (iter_outputs + 1) * param.iter_output_frequency) {
            due = true;
            ++iter_outputs;
        }
        double const next = param.time_first_output + ((time_outputs + 1) * param.time_output_frequency);
        if (param.time_output_frequency > 0 && t + dt >= next) {
            dt = next - t;
            if (dt <= 0) {
                throw std::runtime_error("time step");
            }
            due = true;
            ++time_outputs;
        }
        if (t + dt >= param.t_end) {
            dt = param.t_end - t;
            last = true;
        }
        if (iter + 1 >= param.max_iter) {
            last = true;
        }
        bool out_of_time = std::chrono::steady_clock::now() - start >= std::chrono::hours(param.time_job);
        MPI_Bcast(&out_of_time, 1, MPI_CXX_BOOL, 0, grid.comm_cart);
        if (out_of_time) {
            last = true;
        }
        // invalid states stop the run after a last dump
        double const e = minimum_internal_energy(range.no_ghosts(), grid, rho(device, read_only), rhou(device, read_only), E(device, read_only));
        if (!(e >= 0)) {
            dump();
            throw std::runtime_error("energy");
        }
        // finite volume update
        reconstruction.execute(range.with_ghosts(1), grid, *g, dt / 2, rho(device, read_only), u(device, read_only), P(device, read_only), fx(device, read_only), rho_f, rhou_f, E_f, fx_f);
        godunov->execute(
                range.no_ghosts(),
                grid,
                *g,
                dt,
                rho(device, read_only),
                rhou(device, read_only),
                E(device, read_only),
                fx(device, read_only),
                rho_f,
                rhou_f,
                E_f,
                fx_f,
                rho1,
                rhou1,
                E1,
                fx1);
        if (param.pressure_fix == "On") {
            pressure_fix(range.no_ghosts(), eos, grid, dt, param.eps_pf, rho(device, read_only), rhou(device, read_only), E(device, read_only), rho_f, rhou_f, E_f, rho1, rhou1, E1);
        }
        source->execute(range.no_ghosts(), t, dt, rho1, E1, fx1);
        boundary(conditions, grid, *g, rho1, rhou1, E1, fx1);
        auto const accept = [&]() {
            Kokkos::deep_copy(rho(device), rho1);
            Kokkos::deep_copy(rhou(device), rhou1);
            Kokkos::deep_copy(E(device), E1);
            Kokkos::deep_copy(fx(device), fx1);
        };
        accept();
        // moving grid
        if (moving && criterion.execute(range.no_ghosts(), grid, rho1, rhou1, E1, fx1)) {
            if (x0(host, read_only)(grid.Nx_glob_ng[0] + grid.Nghost[0] + 1) >= param.rmax_shift) {
                moving = false;
                conditions[1] = factory_boundary_construction<Gravity>("NullGradient", 0, 1);
            } else {
                shift_grid(rho(device, read_only), rhou(device, read_only), E(device, read_only), fx(device, read_only), rho1, rhou1, E1, fx1, x0, x1, x2, grid);
            }
            boundary(conditions, grid, *g, rho1, rhou1, E1, fx1);
            accept();
        }
        conv_cons_to_prim(range.all_ghosts(), eos, rho1, rhou1, E1, u(device), P(device));
        g = std::make_unique<Gravity>(gravity_of(param, grid, rho(device, read_only)));
        t += dt;
        ++iter;
        if (due || last) {
            output();
        }
    }
    MPI_Barrier(grid.comm_cart);
    PDI_finalize();
    PC_tree_destroy(&conf);
}
} // namespace hclpp::reference
int reference_main(int argc, char** argv)
{
    hclpp::reference::run(argc, argv);
    return 0;
}
// ------------------------------------------------------------------ names of the values a run depends on
int reference_fields(int, char**)
{
    using namespace hclpp;
    Param const& p = *static_cast<Param const*>(hv_obj("param"));
    hv_note("field restart", p.restart);
    hv_note("field by_iteration", p.iter_output_frequency > 0);
    hv_note("field by_time", p.time_output_frequency > 0);
    hv_note("field limited", p.max_iter);
    hv_note("field pressure_fix", p.pressure_fix == "On");
    hv_note("field user_step", p.user_step == "UserDefined");
    hv_note("field moving", p.shift_grid == "UserDefined");
    hv_note("field grid_type", p.grid_type == "UserDefined");
    Grid const& g = *static_cast<Grid const*>(hv_obj("grid"));
    hv_note("local mpi_rank", g.mpi_rank);
    // the same on every process; all other members are not
    hv_note("shared Ng", g.Ng);
    hv_note("shared mpi_size", g.mpi_size);
    hv_note("shared range_ghosts", g.range.Ng);
    for (int d = 0; d < 3; ++d) {
        hv_note("shared Nghost", g.Nghost[d]);
        hv_note("shared Nx_glob_ng", g.Nx_glob_ng[d]);
        hv_note("shared mpi_dims_cart", g.mpi_dims_cart[d]);
    }
    return 0;
}
