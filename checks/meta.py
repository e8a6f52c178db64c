"""Statements of the properties (properties.jsonl is generated from here)."""
META = {}


def meta(pid, statement, over, text, why, files, mech, note=None):
    META[pid] = dict(statement=statement, over=over.split(), text=text, why=why, files=files,
                     mech=[dict(name=a, where=b) for a, b in mech], note=note)


NOKOKKOS = "No test in the runnable baseline executes this code (Kokkos is absent), and the repository's own tests sample a few numeric values"

meta("H01", "Converting primitive variables (density, velocity, pressure) to conserved variables (density, momentum, total energy) and back is the identity, with momentum = density*velocity and total energy = internal energy + kinetic energy in every dimension. The physical flux along each direction is the Euler flux of that state. The array conversions apply exactly this to every cell of the requested range.",
     "inputs configurations", "every state, every cell of every range, every equation of state, 1D/2D/3D",
     NOKOKKOS + "; the identity must hold for all real states and cell positions.",
     ["src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp"],
     [("compute_evol/compute_ek/to_prim/to_cons/compute_flux", "src/hydro/euler_equations.hpp"), ("conv_prim_to_cons, conv_cons_to_prim", "src/hydro/array_conversion.hpp")])
meta("H02", "The ideal-gas closure relations agree with each other and with their definition for every density, pressure, temperature, adiabatic index and mean molecular weight: e = P/(gamma-1), P = rho*k_B*T/(mu*m_p), and sound speed = sqrt(gamma*P/rho).",
     "inputs", "every positive density, pressure, temperature, adiabatic index > 1 and molecular weight > 0", NOKOKKOS + "; relations over all real arguments.",
     ["src/thermodynamics/perfect_gas.hpp"], [("PerfectGas", "src/thermodynamics/perfect_gas.hpp")])
meta("H03", "With the gas-plus-radiation equation of state, pressure and internal energy are the sum of the ideal-gas part and the radiation part (aT^4/3 and aT^4); temperature recovered from pressure or energy solves that same relation, and every other thermodynamic quantity is derived consistently from it.",
     "inputs", "every positive density, temperature, pressure, energy and gas parameters", NOKOKKOS + "; the temperature is the root of a quartic found by iteration.",
     ["src/thermodynamics/rad_gas.hpp"], [("RadGas: Newton iterations", "src/thermodynamics/rad_gas.hpp")])
meta("H04", "A gas description with a non-finite or non-physical adiabatic index (<= 1) or mean molecular weight (<= 0) is rejected when it is created, and every physical one is accepted. A state is reported valid exactly when its density and pressure are finite and positive.",
     "inputs", "every double value including NaN, infinities and boundary values", "Tests sample a few values; the rejection must hold for every IEEE double.",
     ["src/thermodynamics/perfect_gas.cpp", "src/thermodynamics/rad_gas.cpp", "src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp"],
     [("constructor checks", "src/thermodynamics/perfect_gas.cpp"), ("is_valid", "src/thermodynamics/perfect_gas.hpp")])
meta("H05", "The HLL solver returns the HLL flux for every pair of states and direction: the left flux when both wave speeds are positive, the right flux when both are negative, and the HLL average between. It equals the physical flux for equal states, and mirroring the states mirrors the flux.",
     "inputs configurations", "every pair of states, direction and dimension, every equation of state", NOKOKKOS + "; the case split depends on real inequalities over all states.",
     ["src/hydro/riemann_solver.hpp"], [("HLL", "src/hydro/riemann_solver.hpp")])
meta("H06", "The HLLC solver returns the HLLC flux (contact wave restored) for every pair of states and direction. It equals the physical flux for equal states, and mirroring the states mirrors the flux.",
     "inputs configurations", "every pair of states, direction and dimension, every equation of state", NOKOKKOS + "; four wave configurations over all real states.",
     ["src/hydro/riemann_solver.hpp"], [("HLLC", "src/hydro/riemann_solver.hpp")])
meta("H07", "The low-Mach pressure/advection splitting solver upwinds mass, momentum and energy with one star velocity and adds the star pressure to the normal momentum and its work to the energy, for every pair of states and direction. It equals the physical flux for equal states, and mirroring the states mirrors the flux.",
     "inputs configurations", "every pair of states, direction and dimension, every equation of state", NOKOKKOS + "; upwinding depends on real inequalities over all states.",
     ["src/hydro/riemann_solver.hpp"], [("Splitting", "src/hydro/riemann_solver.hpp")])
meta("H08", "Each slope limiter is symmetric, returns zero when the two slopes have opposite signs or one is zero, never exceeds what its definition (minmod, van Leer, van Albada, constant) allows, and reproduces equal slopes (the constant limiter always returns zero).",
     "inputs", "every pair of real slopes", NOKOKKOS + "; must hold for all real pairs.",
     ["src/hydro/slope_limiters.hpp"], [("Constant, VanLeer, Minmod, VanAlbada", "src/hydro/slope_limiters.hpp")])
meta("H09", "Face values reconstructed in a cell are the cell value minus/plus half the cell width times the limited slope of the differences with the two neighbours, divided by centre-to-centre distances, along every direction and for every cell of the range, on uniform and non-uniform grids.",
     "inputs configurations", "every field, every cell of every range, every grid spacing, 1D/2D/3D", NOKOKKOS + "; quantifies over all fields, cells and spacings.",
     ["src/hydro/limited_linear_reconstruction.hpp"], [("LimitedLinearReconstruction::execute", "src/hydro/limited_linear_reconstruction.hpp")])
meta("H10", "The second-order predictor advances all face states of a cell by half a time step with the flux difference of that cell's own face states and its sources, all evaluated on the states before the update. Before it, every primitive variable and every passive scalar is linearly reconstructed and converted to conserved form.",
     "inputs configurations histories", "every state, cell, range, number of scalars, geometry and dimension", NOKOKKOS + "; quantifies over all fields and cells.",
     ["src/hydro/extrapolation_reconstruction.hpp", "src/hydro/hydro_reconstruction.hpp"],
     [("HancockExtrapolationReconstruction::execute", "src/hydro/extrapolation_reconstruction.hpp"), ("MUSCLHancockHydroReconstruction::execute", "src/hydro/hydro_reconstruction.hpp")])
meta("H11", "The finite-volume update changes mass, momentum and energy of a cell only by the fluxes through its faces weighted by face area, time step and inverse volume, plus sources. The flux through a face is a single value used with opposite signs by the two cells sharing it, so totals are conserved whatever the Riemann solver and the reconstruction.",
     "inputs configurations", "every field, cell, range, Riemann solver, equation of state, geometry and dimension", NOKOKKOS + "; conservation is a relation between all neighbouring cells.",
     ["src/hydro/godunov_scheme.hpp"], [("Godunov scheme execute", "src/hydro/godunov_scheme.hpp")])
meta("H12", "Gravity adds dt*density*acceleration to momentum and dt*momentum.acceleration to energy along every direction; in spherical geometry the curvature terms are added to the momentum equations. The predictor and the final update use the same source definition.",
     "inputs configurations", "every field, cell, gravity field, geometry and dimension", NOKOKKOS + "; quantifies over all fields and cells.",
     ["src/hydro/source_terms.hpp", "src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"], [("source terms", "src/hydro/source_terms.hpp")])
meta("H13", "Every passive scalar is advected with the mass flux: its density changes by the upwind scalar value times the same mass flux as the gas, and the stored mass fraction stays within [0,1]. With uniform scalar the update leaves it uniform.",
     "inputs configurations", "every field, cell, number of scalars, dimension", NOKOKKOS + "; quantifies over all fields, cells and numbers of scalars.",
     ["src/hydro/godunov_scheme.hpp"], [("passive scalar update", "src/hydro/godunov_scheme.hpp")])
meta("H14", "The time step is the inverse of the largest crossing rate (sum over directions of (|velocity| + sound speed) / physical cell width) over all cells of the range and all processes, using metric lengths in spherical geometry. Every process obtains the same value.",
     "inputs configurations schedules", "every field, every range, every number of processes, every geometry and dimension", NOKOKKOS + "; a maximum over all cells and processes.",
     ["src/hydro/time_step.hpp"], [("time_step", "src/hydro/time_step.hpp")])
meta("H16", "A reconstruction chosen by name applies the limiter with that name; every other name is rejected with an error instead of silently falling back.",
     "inputs", "every string", "Tests cannot enumerate all strings.",
     ["src/hydro/face_reconstruction.cpp"], [("factory_face_reconstruction", "src/hydro/face_reconstruction.cpp")])
meta("A01", "The global integral of a field is the sum of value times cell volume over every cell of the requested range of every process, and every process obtains it. The derived temperature field is the equation-of-state temperature of each cell.",
     "inputs configurations schedules", "every field, range and number of processes", NOKOKKOS + "; a sum over all cells and processes.",
     ["src/analysis/integration.cpp", "src/analysis/temperature.hpp"], [("integrate", "src/analysis/integration.cpp"), ("temperature", "src/analysis/temperature.hpp")])
meta("C05", "Converting an integer to another integer type either yields exactly the same mathematical value or raises an error; it raises an error only when the value is not representable in the target type.",
     "inputs programs", "every value of every pair of fundamental integer types", "The tests try six values of two type pairs; there are 100 type pairs and up to 2^64 values each.",
     ["src/utils/int_cast.hpp"], [("int_cast", "src/utils/int_cast.hpp")])
meta("C01", "Every run parameter has the value written in the input file under its documented section and key, or its documented default when it is absent. Copying, moving or assigning the parameter set preserves every parameter.",
     "inputs", "every content of the input file, every parameter", "The tests never build a parameter set from arbitrary files; a swapped key or default shows only for the files that use it.",
     ["src/utils/param.cpp", "src/utils/param.hpp"], [("Param::Param(INIReader)", "src/utils/param.cpp")])
meta("C02", "Looking up a value in the input file finds it whatever the case of section and key, and returns the default when it is absent or empty. Numbers are the exact conversion of the whole stored text to the requested type (decimal, or hexadecimal with 0x prefix); unparsable or out-of-range text is an error, never a silent value. Booleans accept exactly true/yes/on/1 and false/no/off/0 in any case. Repeated keys are joined by line breaks. A file that cannot be opened or parsed is an error.",
     "inputs histories", "every text, key, default and requested type", "The tests sample a handful of texts; the conversion must be right or an error for every text.",
     ["vendor/inih/src/INIReader.cpp", "vendor/inih/include/inih/INIReader.hpp"], [("INIReader::Get*, ValueHandler, MakeKey", "vendor/inih/src/INIReader.cpp")])
meta("U01", "Physical constants have their reference values and the units form one coherent SI system (SI units are 1, CGS units are the exact powers of ten).",
     "configurations", "every constant and unit of the table", "No test looks at them; a wrong constant only shifts physical results.",
     ["src/units/units.hpp"], [("units", "src/units/units.hpp")])
meta("L01", "Within a scope holding the MPI guard, MPI is initialised with the program's arguments before the body and finalised exactly once after it, on every way out of the scope; the guard cannot be copied or moved.",
     "histories programs", "every path through a scope holding the guard", "A test sees one path.",
     ["src/mpi_scope_guard.cpp", "src/mpi_scope_guard.hpp"], [("MpiScopeGuard", "src/mpi_scope_guard.cpp")])
meta("M06", "Broadcasting a scalar or a radial profile over a range of cells fills exactly the cells of that range (every component) with that value (or the profile's value at the cell's radial index), and the direction helpers move exactly the requested index by one.",
     "inputs configurations", "every field, range, profile, cell, dimension", NOKOKKOS + "; quantifies over all cells and ranges.",
     ["src/broadcast.cpp", "src/broadcast.hpp", "src/utils/kronecker.hpp"], [("broadcast", "src/broadcast.cpp"), ("lindex, rindex", "src/utils/kronecker.hpp")])
meta("M01", "The processes partition the domain: along every direction consecutive processes own consecutive blocks of cells covering each cell exactly once, sizes differ by at most one cell, and exactly the first and last process are marked as touching the border. The process grid is periodic, uses all processes, and every communicator is released exactly once. Arrays have the block's size plus ghost layers.",
     "configurations inputs", "every number of processes, process grid, domain size and dimension", "Tests run with one process; the partition must hold for every process count and size.",
     ["src/mesh/grid.cpp"], [("Grid::mpi_decomposition", "src/mesh/grid.cpp")])
meta("M02", "Cell volumes and face areas are the exact geometric measures of the cell in Cartesian and spherical coordinates (angles not simulated are integrated over their full range), in 1D, 2D and 3D.",
     "inputs configurations", "every cell, every node spacing, geometry and dimension", NOKOKKOS + "; no test covers them.",
     ["src/mesh/geometry.cpp", "src/mesh/geometry_factory.cpp"], [("Cartesian::execute, Spherical::execute", "src/mesh/geometry.cpp")])
meta("M03", "On the regular grid nodes are equally spaced, the first and last interior nodes are exactly the configured bounds and ghost nodes continue the spacing outwards. Each process sees the global nodes of its own block; widths, centres, volumes and areas are those of its own nodes.",
     "inputs configurations", "every bound, size, ghost depth, block position, geometry and dimension", NOKOKKOS + "; one process, a few sizes.",
     ["src/mesh/grid_type.cpp", "src/mesh/grid.cpp"], [("Regular::execute", "src/mesh/grid_type.cpp"), ("Grid::set_grid", "src/mesh/grid.cpp")])
meta("M04", "A range of cells extended by g ghost layers iterates exactly the interior cells plus g layers on both sides of every active direction, and nothing more in inactive directions. Inverted or negative corners and more layers than exist are rejected.",
     "inputs configurations", "every corner, ghost depth and dimension", NOKOKKOS + "; a few ranges are sampled.",
     ["src/mesh/range.cpp", "src/mesh/range.hpp"], [("Range, cell_range", "src/mesh/range.cpp")])
meta("B01", "After the boundary exchange every ghost cell that has a neighbouring block (faces, edges and corners, and the periodic wrap-around) holds the value of the process that owns that cell, for every field and component, whatever the number of ghost layers and the process grid. Interior cells are untouched, and every message has a matching partner with the same shape.",
     "configurations schedules inputs", "every process grid, block size, ghost depth, field and dimension", "Tests run with one process and do not build the exchange; it must hold for every decomposition.",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"], [("ghostFill, DistributedBoundaryCondition::execute", "src/boundary_distribute.cpp")])
meta("B02", "A null-gradient face copies the nearest interior cell into every ghost cell beyond it; a reflexive face mirrors the interior cells and reverses only the momentum normal to the face; a periodic face leaves the exchanged values. This holds for every field (scalars included), face and dimension, and no other cell is changed.",
     "inputs configurations", "every field, cell, ghost depth, face and dimension", NOKOKKOS + "; quantifies over all fields and cells.",
     ["src/boundary.cpp", "src/boundary.hpp"], [("NullGradient, ReflexiveCondition, PeriodicCondition", "src/boundary.cpp")])
meta("B03", "The physical boundary conditions are applied after the exchanges, each face of the domain exactly once and only by processes touching that face. They are applied from the last to the first face of the configured priority list, so that the first face of the list has the final word in shared corners. Without a list the documented default X, Y, Z priority holds. A list that repeats, omits or misspells a face is rejected.",
     "inputs configurations", "every priority list, process grid and dimension", "Tests do not exercise it; there are thousands of lists and all block positions.",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"], [("DistributedBoundaryCondition::generate_order", "src/boundary_distribute.cpp")])
meta("C04", "Objects selected by name (boundary condition, reconstruction limiter, Riemann solver of the Godunov scheme, grid spacing, user step) are of the class documented for that name, a boundary condition acts on the face it is created for, and every other name is rejected with an error. The cell geometry is the configured one.",
     "inputs configurations", "every text given as a name", "Tests cannot enumerate all strings.",
     ["src/boundary_factory.hpp", "src/mesh/grid_factory.cpp", "src/hydro/face_reconstruction.cpp", "src/hydro/godunov_scheme.hpp", "src/user_step/user_step_factory.cpp", "src/mesh/geometry_factory.cpp"], [("factory functions", "src/boundary_factory.hpp, src/mesh, src/hydro, src/user_step")])
meta("U02", "The nickel-heating user step adds dt * density * nickel mass fraction (first passive scalar) * specific decay power of the 56Ni-56Co-56Fe chain at the current time to the total energy of each cell of the range, and changes nothing else. When no user step is selected all fields are unchanged.",
     "inputs configurations", "every field, cell, range, time and dimension", NOKOKKOS + "; quantifies over all cells.",
     ["src/user_step/user_step.cpp", "src/user_step/user_step.hpp"], [("HeatNickelStep::execute, NoUserStep::execute", "src/user_step/user_step.cpp")])
meta("G01", "The uniform gravity field has, in every cell, the configured acceleration of each direction. The point-mass field is -G M / r^2 along the first (radial) direction, with r the radial coordinate of the cell centre, and zero along the other directions.",
     "inputs configurations", "every cell, grid, mass, acceleration and dimension", NOKOKKOS + "; quantifies over all cells and parameters.",
     ["src/gravity/gravity.cpp", "src/gravity/gravity.hpp"], [("UniformGravity, PointMassGravity", "src/gravity/gravity.hpp"), ("make_uniform_gravity, make_point_mass_gravity", "src/gravity/gravity.cpp")])
meta("G02", "With the enclosed-mass gravity the radial acceleration of a cell is -G M / r^2 at the cell centre, where M is the central mass plus the mass of the full spherical shells between the inner boundary and that centre, with the density of each shell averaged by volume over all cells of that radius on all processes; ghost cells inside the inner boundary see the central mass alone. The other components are zero. More than one process along the radial direction is rejected.",
     "inputs configurations schedules", "every density field, cell, grid, number of processes along the angles and dimension", NOKOKKOS + "; a prefix sum over all cells and a sum over all processes.",
     ["src/gravity/gravity.cpp", "src/gravity/gravity.hpp"], [("make_internal_mass_gravity, InternalMassGravity", "src/gravity/gravity.cpp")])
meta("M05", "Shifting the moving grid by one cell moves every field (density, momentum, energy, passive scalars) and every node of the first direction by exactly one cell, ghosts included; the last new cell continues the ratio of consecutive widths (uniform grids stay uniform, logarithmic grids stay logarithmic), the other directions are unchanged, and the block's coordinates, widths and volumes are those of the shifted nodes on host and device.",
     "inputs configurations histories", "every grid, field, block position and dimension", NOKOKKOS + "; quantifies over grids, fields and decompositions.",
     ["src/moving_grid/moving_grid.cpp", "src/moving_grid/moving_grid.hpp", "src/mesh/grid.cpp"], [("shift_grid, shift_array", "src/moving_grid/moving_grid.cpp")])
meta("H15", "The pressure fix changes the total energy of exactly the cells of the range whose internal energy before the step is below the configured fraction of their kinetic energy. There the energy becomes the new kinetic energy plus the old internal energy plus a blend of the Godunov change of internal energy and its non-conservative evolution (pressure work and upwind internal-energy fluxes, with the velocity normal to each face averaged from the reconstructed states on both sides); the Godunov part has weight (internal energy / (fraction * kinetic energy))^2, or zero below a tenth of the fraction. Nothing else is changed.",
     "inputs configurations", "every field, cell, threshold, time step and dimension", NOKOKKOS + "; quantifies over all fields and cells.",
     ["src/hydro/pressure_fix.hpp"], [("pressure_fix", "src/hydro/pressure_fix.hpp")])
meta("A02", "The internal-energy monitor returns the smallest value of total minus kinetic energy over every cell of the range of every process, the same on all processes; if energies are undefined (NaN) the result is undefined or negative, so that the guard of the main loop notices them.",
     "inputs schedules", "every field (also undefined values), range and number of processes", NOKOKKOS + "; a minimum over all cells and processes, including NaN.",
     ["src/analysis/internal_energy.cpp"], [("minimum_internal_energy", "src/analysis/internal_energy.cpp")])
meta("P04", "With a field that lives on host and device, every read (through the field, its copies or its constant view, on either side) returns the last value written, wherever it was written. After a synchronisation neither side is reported as out of date; a write access makes exactly the other side out of date.",
     "histories programs", "every sequence of accesses, writes, synchronisations, copies and marks up to 4 (thorough: 5) steps with arbitrary values", NOKOKKOS + "; a stale side shows only for particular orders of accesses.",
     ["src/dual_view/dual_view.hpp"], [("DualView", "src/dual_view/dual_view.hpp")])
meta("R01", "A run composes the operators as documented: boundary conditions then primitive variables before the first step; in each step reconstruction over half a time step, Godunov update over the whole step, optional pressure fix, user step, boundary conditions, optional grid shift (with the boundary conditions again, and no more shifts plus a null-gradient outer face once the grid reached its limit), primitive variables, gravity rebuilt from the current density and grid. Every field, coordinate, time and parameter written to an output file (density, velocity, pressure, energy, temperature, passive scalars) is the result of exactly that composition for the time it is labelled with.",
     "inputs configurations histories", "every parameter file, every initial or restarted state, one and two time steps from an arbitrary state (thorough: also three), with and without moving grid, pressure fix, restart",
     NOKOKKOS + "; the composition matters for every combination of options and states, and no test runs the main program.",
     ["src/main.cpp"], [("hclpp::main", "src/main.cpp")])
meta("R02", "Each time step is the configured Courant fraction of the stability limit, shortened only to land exactly on the next scheduled output time or on the final time. Outputs happen at the start (unless restarting, and only if outputs are configured), when the iteration or time schedule is due, and when the run ends; a run ends exactly at the final time, at the maximal iteration number or when the root process decides that the job time is used up. Output, time-output and iteration-output numbers, the list of outputs, time and iteration number advance consistently and continue after a restart.",
     "inputs configurations histories", "every combination of schedule parameters, every state, one and two time steps from an arbitrary state (thorough: also three)",
     NOKOKKOS + "; the schedule is a function of all parameters and of the history of time steps.",
     ["src/main.cpp"], [("hclpp::main", "src/main.cpp")])
meta("R03", "A run stops with an error when a boundary condition is missing, a time step would not be positive, or the internal energy is negative or undefined (then the state is written first, so that it can be examined), and in no other situation of the main program; the process then exits with a failure status, and with success exactly when the run reached its end. The description of the output files is the last --pdi-config option of the command line if it is not empty, else the built-in one.",
     "inputs fault_sequences", "every parameter file and state; command lines with and without options; every call that can fail", NOKOKKOS + "; error paths need specific states and failures that no test produces.",
     ["src/main.cpp"], [("hclpp::main, main", "src/main.cpp")])
meta("B04", "Each of the two faces of each direction gets the boundary condition named for it in the parameter file, else the one named for its direction, else the one for the whole domain; an empty name is an error. UserDefined selects the setup's own condition for that face, any other name the condition of the library with that name.",
     "inputs configurations", "every parameter file, 1D/2D/3D", NOKOKKOS + "; quantifies over all parameter files and faces.",
     ["src/main.cpp"], [("hclpp::main", "src/main.cpp")])
meta("P01", "All processes of a run make the same sequence of collective operations (reductions, broadcasts, barriers, exchanges, parallel file accesses) and stop together: whether such an operation is made, or the run ends by an error, never depends on the rank, the sub-domain, the clock of a single process or the fields it holds, only on parameters and on values that have been made common.",
     "schedules inputs", "every parameter file, state, number of processes and decomposition", NOKOKKOS + "; a mismatch deadlocks only for particular decompositions, timings or states.",
     ["src/main.cpp", "src/hydro/time_step.hpp", "src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/gravity/gravity.hpp"], [("hclpp::main", "src/main.cpp")])
IOFILES = ["src/io/io.cpp", "src/io/io.hpp", "src/io/io_hdf5.hpp", "src/io/config.yaml.cpp"]
meta("I01", "With the built-in description of the files and up to ten passive scalars, each output goes to one new file <directory>/<prefix>_<number padded to 8 digits>.h5 holding, at the global position of every cell of every process, the current values (host and device in step) of the density, pressure, total energy, temperature, velocity components and passive scalars of that cell, without ghosts, in datasets named rho, P, E, T, ux<d>, fx<n>; the nodes of the three directions with (x<d>) and without (x<d>_ng) ghosts; output, iteration-output and time-output numbers, iteration, time and adiabatic index.",
     "inputs configurations", "every field, cell, grid, ghost depth, decomposition, dimension and number of passive scalars up to ten", NOKOKKOS + "; the layout depends on the decomposition and is described in YAML that no test interprets.",
     IOFILES, [("write_pdi", "src/io/io.cpp"), ("io_config", "src/io/config.yaml.cpp")])
meta("I02", "A restart continues the state that was written: every process reads, for its own cells and from the file named in the parameters, the density, velocity, pressure and passive scalars (up to ten) of exactly these cells as the output of an earlier run wrote them under the built-in description, the nodes, the time, the iteration and the three output numbers, also when the number of processes or the decomposition changed; afterwards host and device agree on them.",
     "histories configurations inputs", "every field, cell, grid, decomposition before and after, dimension and number of passive scalars up to ten", NOKOKKOS + "; needs a pair of runs with different decompositions.",
     IOFILES, [("read_pdi", "src/io/io.cpp"), ("io_config", "src/io/config.yaml.cpp")])
meta("I03", "The index file <directory>/<prefix>.xmf, written by the first process, is a well-formed XDMF series of all recorded outputs in order: each with its time, the node arrays without ghosts and every cell field (rho, P, E, T, ux<d>, fx<n>) in the HDF5 file of that output, with the sizes with which these datasets are written.",
     "inputs histories configurations", "every time, output number, grid size and dimension; up to two (thorough: three) recorded outputs, several numbers of passive scalars", NOKOKKOS + "; the index must agree with the output files in every configuration.",
     IOFILES, [("XmlWriter::operator()", "src/io/io.cpp")])
meta("I04", "Writing and restarting leave no HDF5 identifier open and use none after closing it, each being closed once by the function of its kind, on every path; a failing HDF5 call made by the program ends the operation with an exception. A restart file whose node arrays do not have the sizes of the configured grid is refused. Each output file carries the build information (git_build_string, git_branch, compile_date, compile_time) as attributes written by one process after all processes have written their data.",
     "fault_sequences inputs", "every result of every HDF5 call, every size of the arrays in the file", NOKOKKOS + "; each call can fail and each size can differ.",
     IOFILES, [("raii_h5_hid, check_extent_dset", "src/io/io_hdf5.hpp"), ("write_pdi, read_pdi", "src/io/io.cpp")])
SETUPS = ["src/setups/%s/setup.hpp" % n for n in ("advection_gap", "advection_sinus", "eq_hydro_sphe", "gresho_vortex", "heat_nickel", "implosion_test", "kelvin_helmholtz", "rayleigh_taylor", "rayleigh_taylor3d", "sedov1d", "sedov2d", "sedov3d", "shock_tube", "shock_wall", "stratified_atm")]
meta("S01", "Initialising any of the shipped test problems gives every cell without ghosts of every process a density, a pressure, all velocity components and all passive scalars, and leaves the ghosts alone. These values are functions of the parameters and of the position of the cell in the domain (and of the random numbers drawn by the first process) only: they do not depend on the number of processes, the decomposition, the rank or the number of ghost layers.",
     "configurations schedules inputs", "every grid, decomposition, number of ghost layers and parameter file; the dimensions, geometries and equations of state each problem can be compiled with (quick: a selection)", NOKOKKOS + "; the dependence on the decomposition shows only when runs with different numbers of processes are compared.",
     SETUPS, [("InitializationSetup::execute", "src/setups/sedov1d/setup.hpp"), ("InitializationSetup::execute", "src/setups/sedov3d/setup.hpp")])
meta("S02", "The initial states of the shipped problems are those of their definition, with the parameters of the file in SI units: shock_tube (rho0, P0, u0 up to `inter`, rho1, P1, u1 beyond), shock_wall and heat_nickel (uniform), advection_gap (rho1 for 0.3 < x < 0.7, else rho0), advection_sinus (1 + 0.1 sin(2 pi x)), sedov1d (E1, half of it in Cartesian geometry, in the first cell of the domain and E0 in every other, per volume of the first cell), sedov2d (E1 for node radius < 0.025, else E0, per volume of the cell), sedov3d (E1 per volume in the one cell at inner radius 1 and the middle of the two angles, else pressure P0; spherical geometry only), gresho_vortex, implosion_test (rho0, P0 where x + y > 0.15, else rho1, P1), kelvin_helmholtz, rayleigh_taylor (rho0 and fx0 above, rho1 and fx1 below the perturbed interface, pressure -rho0 |g| y), rayleigh_taylor3d (polytropic layers in hydrostatic balance, scalar 1 above and 0 below the interface of the modes 8 <= i^2+j^2 <= 16), eq_hydro_sphe and stratified_atm (isothermal hydrostatic atmospheres for the mass M, or for the gravity). A geometry a problem is not made for is refused.",
     "inputs configurations", "every grid, parameter file and cell; the dimensions, geometries and equations of state each problem can be compiled with (quick: a selection)", NOKOKKOS + "; quantifies over all positions and parameters.",
     SETUPS, [("InitializationSetup::execute", "src/setups/rayleigh_taylor/setup.hpp")])
meta("S03", "The user-defined boundary conditions of the hydrostatic atmospheres (eq_hydro_sphe, stratified_atm) fill exactly the ghost cells beyond the face they are made for with the isothermal hydrostatic density at the centre of each ghost cell, the momentum of that density with the velocity u0 of the file in every direction, and the total energy that contains the internal energy at temperature T0 and this kinetic energy.",
     "inputs configurations", "every grid, face, number of ghost layers and parameter file; 1D/2D/3D (quick: 1D and 3D)", NOKOKKOS + "; quantifies over all ghost cells and parameters.",
     ["src/setups/eq_hydro_sphe/setup.hpp", "src/setups/stratified_atm/setup.hpp"], [("BoundarySetup::execute", "src/setups/eq_hydro_sphe/setup.hpp"), ("BoundarySetup::execute", "src/setups/stratified_atm/setup.hpp")])
meta("I05", "Starting from a radial profile in a file (setup v1d, built-in description): every process reads, from the file named by init_file, the elements of rho_1d, u_1d, P_1d and fx_1d at the global positions of its cells in the first direction; each cell gets that density, pressure and scalars, u_1d as first velocity component and zero as the others; the nodes x0 (with ghosts) are those of the file, those of the other directions regular. A file whose datasets do not have the sizes of the configured grid, or a failing HDF5 call, ends the run with an error; no HDF5 identifier is left open.",
     "configurations inputs fault_sequences", "every grid, decomposition, file, dimension; several numbers of passive scalars", NOKOKKOS + "; depends on the decomposition and on the contents of a file.",
     ["src/setups/v1d/setup.hpp", "src/broadcast.cpp", "src/io/config.yaml.cpp", "src/io/io_hdf5.hpp"], [("InitializationSetup::execute, GridSetup::execute", "src/setups/v1d/setup.hpp")])
meta("S04", "The criterion of the moving grid of the setup v1d has the same value on all processes: true exactly when the largest first velocity component (rhou/rho) in the outermost cells of the domain in the first direction (the cells from cell_shift plus the number of ghost layers before the outer face up to that face, over all other directions and processes) is not below the positive limit vmax_shift. If the outermost sub-domain has fewer than cell_shift cells, all processes stop with an error together.",
     "inputs configurations schedules", "every field, grid, decomposition and parameter file", NOKOKKOS + "; a decision that has to be common to all processes.",
     ["src/setups/v1d/setup.hpp"], [("UserShiftCriterion::execute", "src/setups/v1d/setup.hpp")])
meta("P02", "No kernel (parallel loop, reduction or scan over cells) of the solver, the mesh, gravity, the boundary conditions, the moving grid, the derived fields or the test problems has a data race: an array element written in one iteration is neither read nor written in any other iteration of that kernel, so the result does not depend on the order or the concurrency of the iterations.",
     "schedules inputs configurations", "every pair of iterations of every kernel, every range, grid and field; distinct arrays do not overlap", NOKOKKOS + "; a race shows only under particular schedules of a parallel back end, and the tests have none.",
     ["src/hydro/pressure_fix.hpp", "src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/limited_linear_reconstruction.hpp", "src/boundary.cpp", "src/mesh/grid.cpp", "src/mesh/geometry.cpp", "src/gravity/gravity.cpp"],
     [("kernels of the solver", "src/hydro/godunov_scheme.hpp"), ("null_gradient_condition, reflexive_condition", "src/boundary.cpp")])
meta("P03", "With the arrays of a run allocated as the main program does (local size plus two ghost layers or more on each side, one more coordinate than cells), every operator of an iteration applied to the cells the program applies it to - setting up the mesh, initial conditions of the test problems, conversions, time step, diagnostics, gravity, reconstruction, half-step extrapolation, Godunov update, pressure fix, user step, boundary conditions, halo exchange and grid shift - reads and writes only elements that exist: every index of every access is at least 0 and below the extent in its direction, every part of an array lies inside it, and arrays copied to one another have the same sizes.",
     "inputs configurations", "every number of cells, ghost layers (two or more), position in the decomposition and content of the arrays", NOKOKKOS + "; an access beyond an array gives a plausible number in most runs.",
     ["src/hydro/limited_linear_reconstruction.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/godunov_scheme.hpp", "src/hydro/pressure_fix.hpp", "src/hydro/time_step.hpp", "src/boundary.cpp", "src/boundary_distribute.cpp", "src/mesh/grid.cpp", "src/mesh/geometry.cpp", "src/mesh/grid_type.cpp", "src/mesh/range.cpp", "src/gravity/gravity.cpp", "src/moving_grid/moving_grid.cpp", "src/broadcast.cpp"],
     [("cell_range", "src/mesh/range.cpp"), ("LimitedLinearReconstruction::execute", "src/hydro/limited_linear_reconstruction.hpp"), ("DistributedBoundaryCondition::ghost_sync", "src/boundary_distribute.cpp"), ("Grid::set_grid", "src/mesh/grid.cpp")])
