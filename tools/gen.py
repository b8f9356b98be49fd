#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, note):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, quantifier=quantifier,
        why=why, files=files, mechanism=mechanism, technique=technique, note=note,
    ))


NOTE = (
    "Every verdict comes from an oracle watching a real execution of /repo; nothing is proved beyond the "
    "executions observed. Trusts numpy/scipy/torch, the reference formulas in lib/ref.py and the stated tolerances. "
)

prop(
    "C01", "Solvers conserve mass and momentum",
    "With periodic boundaries every solver keeps the integral of each conserved quantity (scalar; water volume, and momentum over a flat bottom) constant up to rounding, whatever the initial state, mesh, time stepping and ODE solver. With walls the water volume is constant, and for other boundaries the integral changes exactly by the time-integrated difference of the physical fluxes when the states near the boundary stay constant. This holds at every stored time, for finite volume and finite element solvers alike, including limited and network-corrected fluxes.",
    ["inputs", "configurations", "histories"],
    "all initial data, meshes, boundary conditions, solver options and numbers of steps",
    "The tests compare few hand-computed right-hand sides; conservation must hold for every state, every limiter branch and after any number of steps.",
    ["finite_volume/numerical_flux.py", "finite_volume/solver.py", "finite_volume/scalar/solver", "finite_volume/shallow_water/solver", "finite_element/scalar/solver", "finite_volume/shallow_water/numerical_flux.py"],
    [("fluxes into the left and right cell of a node are opposite", "finite_volume/numerical_flux.py"), ("antisymmetric artificial diffusion and limited fluxes", "finite_element/scalar/solver")],
    "runtime monitoring: conservation monitor over recorded solution histories of randomised real runs",
    "Exploration over random states incl. discontinuous and noisy ones; every stored state of every run is checked against the initial integral.",
)
prop(
    "C02", "Constant states and lakes at rest are stationary",
    "A constant state (shallow water: over a flat bottom) is never changed by any solver with compatible boundary conditions. Water at rest with a level surface over an arbitrary wet bathymetry (with equal values in the two cells meeting at a periodic boundary) stays at rest with the low-order, MCL, central, energy stable and first-order diffusive energy stable shallow water solvers, for periodic, outflow and wall boundaries.",
    ["inputs", "configurations", "histories"],
    "all constants, all wet bathymetries (smooth, jumping, random), meshes, gravitational accelerations and boundary conditions",
    "Tests use one bathymetry and a handful of states; exact balance of flux and source terms must hold for every bottom.",
    ["finite_volume/shallow_water/numerical_flux.py", "finite_volume/shallow_water/solver", "finite_volume/scalar/solver", "finite_element/scalar/solver"],
    [("source term discretisation balances the pressure difference", "finite_volume/shallow_water/solver")],
    "runtime monitoring: stationarity monitor on right-hand sides and full runs",
    "Exploration over random constants, random bottoms and all solvers.",
)
prop(
    "C03", "Scalar bound-preserving solvers obey local maximum principles",
    "For advection and Burgers the Lax-Friedrichs and MCL finite volume solvers and the low-order and MCL finite element solvers never leave the range of their initial (and inflow) values, for any ODE solver offered for them and any time step satisfying the CFL condition. Every forward Euler step keeps each new value between the minimum and maximum of the old values in its stencil.",
    ["inputs", "configurations", "histories"],
    "all initial data including discontinuities and noise, all meshes, boundary conditions and admissible CFL numbers",
    "The tests check one benchmark; the maximum principle must hold for each state and limiter branch.",
    ["finite_volume/scalar/solver", "finite_element/scalar/solver", "core/local_bounds.py", "finite_volume/time_stepping.py"],
    [("bar states and convex limiting", "finite_volume/scalar/solver/mcl.py"), ("time step bound", "finite_volume/time_stepping.py")],
    "runtime monitoring: range and local-extremum monitors on every step of real runs",
    "Exploration; finite element MCL needs at least three cells and periodic meshes.",
)
prop(
    "C04", "Shallow water solvers keep water heights positive and bounded",
    "Starting from wet states and under the CFL condition, the Lax-Friedrichs (flat bottom), low-order and MCL shallow water solvers never produce negative water heights, with any strong-stability-preserving ODE solver offered. Each of their forward Euler steps keeps every new height between the old height and the intermediate heights of the low-order scheme at both nodes of the cell. Over a flat bottom the same holds for the discharges (Lax-Friedrichs, low-order) and the velocities (MCL).",
    ["inputs", "configurations", "histories"],
    "all wet states (sub- and supercritical, dam breaks, noise), bottoms, meshes and boundary conditions",
    "Tests run a few smooth benchmarks for a few steps.",
    ["finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/mcl.py", "finite_volume/time_stepping.py"],
    [("convex limiting of heights and velocities", "finite_volume/shallow_water/solver/mcl.py"), ("optimal time step from wave speeds", "finite_volume/time_stepping.py")],
    "runtime monitoring: positivity and local-bound monitors on every step of real runs",
    "Exploration over wet states; dry fronts over bathymetry are outside (see DESIGN.md).",
)
prop(
    "C05", "Time stepping reaches the end time exactly with admissible steps",
    "A solver run visits strictly increasing times, starts at the start time and ends exactly at the end time, never beyond. Each step is positive and at most the CFL number times the solver's optimal step (for a fixed mesh-dependent step, equal to it except for the last one), also when stepped manually. The advertised number of steps, the recorded times and the recorded time steps agree with the steps taken.",
    ["inputs", "configurations", "histories"],
    "all start/end times, CFL numbers, meshes, adaptive and fixed stepping, sequences of steps and re-initialisations",
    "Unit tests use short lists of exactly representable times; rounding of accumulated times matters for arbitrary ones.",
    ["core/time_stepping.py", "core/solver.py", "finite_volume/time_stepping.py", "core/discrete_solution.py"],
    [("last step is shortened to hit the end time", "core/time_stepping.py")],
    "runtime monitoring: trace checker over recorded (time, step) events",
    "Exploration over random configurations including tiny, huge and non-representable intervals.",
)
prop(
    "C06", "Explicit Runge-Kutta methods realise their Butcher tableau and order",
    "Every ODE solver advances time by exactly the given step and evaluates the right-hand side at exactly the stages its documented Runge-Kutta method prescribes. It integrates polynomial-in-time problems up to its order exactly and has its nominal order (1, 2, 3, 4, 8) on smooth linear and nonlinear problems, also after re-initialisation and from any initial time.",
    ["inputs", "histories"],
    "all right-hand sides, step sizes, initial times and values, sequences of execute and reinitialize calls",
    "Tests integrate a single equation with a loose tolerance; a perturbed coefficient of a high order method stays unnoticed.",
    ["core/ode_solver.py"],
    [("stage computation from Butcher tableaus", "core/ode_solver.py")],
    "runtime monitoring: recording right-hand sides; order-condition oracle and reference integrator",
    "All rooted-tree order conditions are observed through black-box executions up to the method's order (low orders), and error slopes for order 8.",
)
prop(
    "C07", "Solutions are equivariant under shifts, reflections and scaling",
    "On periodic domains shifting the initial state (and bathymetry) by whole cells shifts the solution of every solver by the same cells, and moving the domain changes nothing but the coordinates. Reflecting a shallow water state (reversing cells and the sign of the discharge) or a Burgers state (reversing and negating) reflects the solution for all boundary conditions reflected accordingly. Rescaling lengths, times and gravitational acceleration consistently rescales the solution. (Bathymetries take equal values in the two cells meeting at a periodic boundary.)",
    ["inputs", "configurations", "histories"],
    "all states, meshes, bathymetries, boundary conditions and solvers",
    "Metamorphic relation between pairs of runs; the tests never relate two runs.",
    ["finite_volume", "finite_element", "core/boundary.py"],
    [("node-wise symmetric fluxes, neighbour index mappings", "core/index_mapping.py")],
    "runtime monitoring: metamorphic monitor comparing pairs of recorded runs",
    "Exploration over random states, all solvers.",
)
prop(
    "C08", "Numerical fluxes and semi-discretisations equal their definitions",
    "The Riemann solvers, Lax-Friedrichs, central, energy stable, low-order, MCL, Lax-Wendroff and antidiffusive fluxes deliver for every state exactly the values of their published formulas, are consistent with the physical flux and opposite for both cells of a node over a flat bottom. The finite volume semi-discretisation of every solver equals the difference of these node fluxes divided by the cell length, including the bathymetry source terms and every boundary condition.",
    ["inputs", "configurations"],
    "all states incl. equal, resting, supercritical and dry ones; all gravitational accelerations, bathymetries, boundary conditions, meshes, times",
    "Tests contain a few hand-computed four-cell examples that do not reach most limiter branches.",
    ["core/riemann_solver.py", "finite_volume/numerical_flux.py", "finite_volume/shallow_water", "finite_volume/scalar", "finite_volume/solver.py"],
    [("flux formulas", "finite_volume/numerical_flux.py, finite_volume/shallow_water/solver")],
    "runtime monitoring: differential oracle (independent loop-based reference model) on executed fluxes",
    "Reference formulas re-derived from the literature; exploration over random states.",
)
prop(
    "C09", "Boundary conditions act as their extended domain",
    "For every radius and node, the values seen beyond the boundary are: the opposite end (periodic), the boundary cell (outflow), the prescribed state at the current time (inflow), the mirrored cells with reversed discharge (wall). A run with outflow, wall or inflow boundaries coincides with the run on a suitably enlarged domain as long as the two cannot be told apart by the numerical domain of dependence.",
    ["inputs", "configurations", "histories"],
    "all cell values, radii, combinations of conditions at both ends, times and inflow functions",
    "Tests use single small vectors and radius one.",
    ["core/boundary.py", "finite_volume/solver.py", "core/benchmark.py"],
    [("ghost cells and node neighbours", "core/boundary.py")],
    "runtime monitoring: differential oracle on executed boundary handling and enlarged-domain twin runs",
    "Exploration.",
)
prop(
    "C10", "Finite element spaces and operators are exact",
    "Lagrange bases interpolate nodal values, represent polynomials up to their degree exactly on every mesh, and values and derivatives agree with each other. Mass, lumped mass, discrete gradient, L2 products, flux gradients, flux approximations and artificial diffusion equal their defining integrals or formulas for every degree, mesh and DOF vector, and the finite element semi-discretisations equal the weak form built from them.",
    ["inputs", "configurations"],
    "polynomial degrees 1 to 7, all meshes, DOF vectors, fluxes and boundary (periodic) wrap-around",
    "Tests check few entries on four-cell meshes for low degrees.",
    ["finite_element"],
    [("quadrature over reference cell, local-to-global index mapping", "finite_element/space.py, finite_element/system.py")],
    "runtime monitoring: differential oracle (dense re-assembly with independent quadrature) on executed operators",
    "Exploration over random DOF vectors, meshes and all degrees.",
)
prop(
    "C11", "Quadrature, norms and interpolation are exact where they claim to be",
    "Gauss rules with n nodes integrate polynomials of degree 2n-1 exactly on every interval and scale correctly. The L1, L2 and sup norms of piecewise functions equal their definitions on every mesh. Cell averages and nodal interpolation of scalar and vector functions deliver exact values for functions within their polynomial exactness.",
    ["inputs", "configurations"],
    "all intervals, polynomials, numbers of nodes, meshes and DOF vectors",
    "Tests use constants and one polynomial on one interval.",
    ["core/quadrature.py", "core/norm.py", "core/interpolate.py", "finite_volume/space.py"],
    [("Gauss-Legendre nodes scaled to intervals", "core/quadrature.py")],
    "runtime monitoring: differential oracle (exact rational/polynomial integrals) on executed rules",
    "Exploration.",
)
prop(
    "C12", "Meshes and coarsening partition the domain and keep averages",
    "Uniform meshes split the interval into equally long cells that cover it without gaps; finding a cell returns one that contains the point; refining and coarsening are inverse and nested. Coarsening DOF vectors or solutions averages exactly the fine cells of each coarse cell and keeps integrals, times and constants, for each degree dividing the number of cells, and rejects other ones. The solution of a coarse solver with mesh size N and coarsening degree k is the cell-wise average of the solution of its fine solver on N cells.",
    ["inputs", "configurations"],
    "all intervals, mesh sizes, coarsening degrees and values",
    "Tests use unit intervals and few sizes.",
    ["core/mesh.py", "core/vector_coarsener.py", "core/type.py", "finite_volume/index_mapping.py"],
    [("index arithmetic of uniform meshes", "core/mesh.py"), ("averaging over blocks of cells", "core/vector_coarsener.py")],
    "runtime monitoring: invariants and reference model on executed mesh operations",
    "Exploration.",
)
prop(
    "C13", "A discrete solution is an isolated, complete record of the evolution",
    "A discrete solution returns the initial data and every value and time step it was updated with, unchanged by anything the caller later does to arrays it passed in or received. An update with values that are not finite is rejected and leaves time, value and history as they were; setting a value at an earlier time truncates the history consistently.",
    ["inputs", "histories"],
    "all sequences of updates, rejected updates, time settings and caller-side mutations",
    "Aliasing and atomicity depend on histories of calls; tests perform a single update.",
    ["core/discrete_solution.py"],
    [("copies on input and output, checks before the update", "core/discrete_solution.py")],
    "runtime monitoring: model-based online checker over random operation sequences",
    "Exploration over random operation sequences with hostile callers.",
)
prop(
    "C14", "A re-initialised solver behaves like a new one",
    "After any previous use, re-initialising a solver with a benchmark and solving yields exactly the same times and values as a newly created solver for this benchmark, independent of what it solved before. The benchmark may have other initial data than the earlier one, on the same domain and times with the same boundary conditions, bottom and gravitational acceleration (non-adaptive finite element solvers for Burgers: the same benchmark).",
    ["histories", "configurations"],
    "all sequences of solve, manual update and reinitialize calls over solvers and benchmarks of the same kind",
    "Depends on call histories; tests reinitialise once without solving.",
    ["core/solver.py", "finite_volume/solver.py", "finite_element/solver.py", "core/ode_solver.py", "core/time_stepping.py"],
    [("reinitialize resets solution, ODE solver, time stepping and fluxes", "core/solver.py")],
    "runtime monitoring: differential monitor between re-used and fresh solver objects",
    "Finite element solvers with fixed time steps are re-initialised with the same benchmark only (documented limitation).",
)
prop(
    "C15", "Runs are deterministic and random benchmarks reproducible",
    "Running the same solver configuration twice, in the same or another process, gives bitwise equal results. Random benchmarks with equal seed and parameters describe equal data, different seeds different data, explicitly given parameters are honoured (zero, too: see the known findings) and all drawn heights, amplitudes and positions lie in their documented ranges.",
    ["inputs", "configurations", "histories"],
    "all seeds, benchmark parameters, and preceding use of the global random generator",
    "Tests use one seed and never compare repeated or interleaved draws.",
    ["benchmark/shallow_water.py", "core/solver.py"],
    [("seeded generator per benchmark", "benchmark/shallow_water.py")],
    "runtime monitoring: repeated-execution comparison and range monitors",
    "Exploration over seeds.",
)
prop(
    "C16", "Exact solutions solve the equations with the given initial data",
    "Every exact solution offered by a benchmark coincides with the initial data at the start time, satisfies the conservation law in integrated form over every space-time box, and is periodic where the benchmark is periodic. Exact values beyond the validity range, and exact solutions of benchmarks without one, are rejected rather than returned.",
    ["inputs"],
    "all points in space and time up to the validity limit",
    "Tests compare at few points.",
    ["benchmark/advection.py", "benchmark/burgers.py", "benchmark/shallow_water.py"],
    [("characteristics and travelling waves", "benchmark")],
    "runtime monitoring: conservation-law oracle on sampled space-time boxes",
    "Exploration over random boxes with fine quadrature.",
)
prop(
    "C17", "Solvers converge to the exact solution with their order",
    "On smooth problems the error of each solver decreases under mesh refinement with its design order (first for Lax-Friedrichs, low-order, Lax-Wendroff and first-order diffusive schemes; second for central, energy stable and MCL; continuous Galerkin: degree plus one for odd degrees, at least the degree for even ones). For non-smooth data the low-order solvers converge to the entropy solution, the limited ones wherever a jump is not nearly symmetric and stationary.",
    ["inputs", "configurations"],
    "smooth initial data, meshes, ODE solvers",
    "Order is an asymptotic statement over mesh sequences, none of the tests refine.",
    ["finite_volume", "finite_element", "core/norm.py"],
    [("consistent discretisations", "finite_volume/solver.py, finite_element/solver.py")],
    "runtime monitoring: error monitor over mesh-refinement sequences of real runs",
    "Rates measured on moderate meshes with tolerance.",
)
prop(
    "C18", "The command line does what it says",
    "Every combination of command, benchmark and solver options accepted by the command line runs exactly the solver configuration named by the options (mesh size, CFL, adaptive stepping, ODE solver, polynomial degree, gamma, flux, coarsening, benchmark parameters, end time), with the documented defaults otherwise. Several solvers can be given and options apply only to the solver they follow; invalid values and ill-formed lines are rejected with a message and compute nothing. Options which only add output (--args, --profile) change no result.",
    ["inputs", "configurations"],
    "all option combinations, orders and values",
    "Tests parse a few strings; combinations are unbounded.",
    ["parser.py", "defaults.py", "cls1", "command"],
    [("argparse actions building command and solver factories", "parser.py")],
    "runtime monitoring: differential monitor between parsed runs and API-built reference runs",
    "Exploration over random option combinations.",
)
prop(
    "C19", "Generated training data are exact records of subgrid fluxes",
    "Generating data writes, for each sampled benchmark and each time step, exactly one row per requested node of the coarse mesh: the states of the announced coarse cells left and right of the node, as averaged from the fine solution, and the subgrid flux of that very step: the flux of the fine solver through the node minus the coarse flux of the averaged states. Files contain the announced numbers of rows and columns, equal seeds give equal files, and append never rewrites earlier rows.",
    ["inputs", "configurations", "histories"],
    "all seeds, mesh sizes, coarsening degrees, end times, node subsets, stencil sizes and benchmark sequences",
    "Tests generate one tiny file and look at its existence or shape.",
    ["command/generate_data.py", "finite_volume/shallow_water/solver"],
    [("flux history of fine solver averaged over time levels", "command/generate_data.py")],
    "runtime monitoring: offline checker recomputing written rows from an independent fine-grid run",
    "Exploration over small configurations.",
)
prop(
    "C20", "Reported errors and convergence orders are the true ones",
    "Error computations report for each solver, refinement and norm the norm of the difference of computed and exact solution at the end time, with the number of DOFs that was really used, and the order of convergence following from consecutive errors. The error evolution of two solutions is the relative L2 error of each component at each time recorded by the one with more records, with linear interpolation in time of the other.",
    ["inputs", "configurations"],
    "all benchmarks with exact solutions, solvers, norms, refinements and end times",
    "Tests check a few constants.",
    ["command/error.py", "command/error_evolution.py", "core/norm.py"],
    [("EOC formula and norm evaluation", "command/error.py")],
    "runtime monitoring: independent recomputation of every reported table entry",
    "Exploration.",
)
prop(
    "C21", "Networks survive storage and reduced solvers use them faithfully",
    "A stored network loads to one computing identical outputs, independent of the process which stored it. The reduced solver evolves the coarse state with the coarse flux plus exactly the network's correction of the states around each node in the documented order, is conservative, and depends only on states within the stencil. Training a network is reproducible for a seed, uses every skip-th row of the data, resumes from the stored state, and stores nothing if saving is refused.",
    ["inputs", "configurations", "histories"],
    "all network weights, states, meshes and stored files",
    "Tests use stubs instead of networks.",
    ["finite_volume/shallow_water/solver/reduced_model.py", "finite_volume/shallow_water/solver/reduced_llf.py", "command/train_network.py"],
    [("network flux evaluated on neighbouring coarse cells", "finite_volume/shallow_water/solver/reduced_model.py")],
    "runtime monitoring: differential oracle evaluating the network layer by layer on recorded states",
    "Exploration over random weights.",
)
prop(
    "C22", "Plots and animations show the computed solution",
    "Every plotted curve and animation frame shows exactly the values of the solution it is labelled with at the stated time, on the cells or nodes of its mesh; the shallow water plot shows height, discharge and velocity of all solvers and the bathymetry. An animation has a frame for every recorded time, and the axes of water animations contain the curves. Runs that fail are drawn up to the failure. Saved figures and frames depend only on the present plot, not on earlier ones, and saving works for every number of frames and solvers.",
    ["inputs", "histories"],
    "all solvers, meshes, solutions, sequences of plots",
    "Tests replace the plotting backend or look at nothing.",
    ["command/plot.py", "command/animate.py"],
    [("line data from solution values", "command/plot.py")],
    "runtime monitoring: hooks on the drawing backend recording the drawn data",
    "Exploration.",
)
prop(
    "C23", "Violated time step conditions and broken values are reported",
    "Whenever a time step of a low-order or MCL finite element solver exceeds the CFL condition the user is told, and never otherwise; when the values of any solver become infinite or NaN the run stops with an error at the first such step and the last finite solution stays available; a step which is too small interrupts the run with a warning.",
    ["inputs", "fault_sequences", "histories"],
    "all steps at which the condition is violated or non-finite values appear, all solvers",
    "Needs faults at particular steps; tests have none.",
    ["core/time_stepping.py", "core/solver.py", "core/discrete_solution.py", "finite_volume/time_stepping.py"],
    [("CFL checker and rejection of non-finite values", "core/time_stepping.py, core/discrete_solution.py")],
    "runtime monitoring with fault injection: faults injected at chosen steps, monitor on warnings, errors and state",
    "Exploration over fault positions.",
)
prop(
    "C24", "Curvature and data analysis describe the stored data",
    "The curvature used for training data is the mean curvature of the input heights of that very row. Deleting by curvature writes exactly the rows with both mean curvatures below the thresholds, in order, leaves the source file unchanged, and changes nothing when repeated. Curvature plots draw each row's curvature against its subgrid flux, and data analysis reports statistics and histograms of exactly the stored columns.",
    ["inputs", "histories"],
    "all data files, numbers of inputs, sequences of analysis and deletion",
    "Tests use one small frame.",
    ["command/analyze_curvature.py", "command/analyze_data.py", "command/delete_curvature.py"],
    [("row-wise curvature of heights", "command/analyze_curvature.py")],
    "runtime monitoring: independent recomputation of every written column",
    "Exploration.",
)
prop(
    "C25", "System vectors and matrices behave like dense linear algebra",
    "Assembled sparse system matrices and vectors agree with dense arithmetic under element access, assignment, products, inverse application, row-wise reduction and re-assembly in every order of operations. Nothing stays stale after entries change.",
    ["inputs", "histories"],
    "all sparsity patterns from periodic meshes, values and sequences of operations",
    "Tests perform one operation on a fresh matrix.",
    ["core/system.py", "finite_element/system.py"],
    [("CSR values addressed by neighbour indices, cached factorisation", "core/system.py")],
    "runtime monitoring: model-based checker (dense twin) over random operation sequences",
    "Exploration.",
)
prop(
    "C26", "Evaluations neither alter their inputs nor depend on earlier ones",
    "Evaluating right-hand sides, fluxes, time steps, norms, coarsening or plots never changes the arrays passed in, and repeated evaluation for the same state gives the same result, whatever was evaluated in between. Several solvers, solved interleaved or one after another, give the results of separate runs.",
    ["histories", "inputs"],
    "all interleavings of evaluations on shared and separate objects",
    "Hidden state shows only in particular call histories.",
    ["core", "finite_volume", "finite_element"],
    [("caches keyed by DOF vectors, fluxes storing intermediate states", "finite_element/flux_approximation.py, core/riemann_solver.py")],
    "runtime monitoring: input-mutation sentinels and replay comparison over random call histories",
    "Exploration.",
)
prop(
    "C27", "Parameter variation and error series cover what they announce",
    "An error evolution series runs both solvers on the announced number of random benchmarks of its seed with the fixed parameters, the same ones for both and in order; failing ones are reported and skipped; its times and errors belong to these benchmarks, and average plots show their mean and maximum. A parameter variation runs such a series for exactly the announced parameter values, once each and in order, after the reference series if there is one, and stores the plots of each value in its own files.",
    ["configurations", "inputs"],
    "all seeds, numbers of benchmarks, fixed parameters, variations, solvers and failures",
    "Tests use stubs.",
    ["command/error_evolution.py", "command/parameter_variation_test.py", "command/calculate.py"],
    [("loop over random benchmarks and parameter values", "command/error_evolution.py, command/parameter_variation_test.py")],
    "runtime monitoring: recording of executed runs compared with announced parameters",
    "Exploration.",
)
prop(
    "C28", "Energy stable solvers conserve or dissipate energy",
    "For every wet state and bathymetry with periodic boundaries (with equal values of the bottom in the two cells meeting there) the energy stable flux changes the total energy (kinetic plus potential) of the semi-discretisation by nothing but rounding, and the first-order diffusive energy stable flux never increases it; at each node the entropy production has the corresponding sign. For scalar periodic problems the integral of the squared solution is constant in the semi-discretisation of continuous Galerkin (with exact fluxes for Burgers) and of central advective fluxes, and never grows for the local Lax-Friedrichs and the low-order continuous Galerkin scheme; in runs its drift vanishes with the time step.",
    ["inputs", "configurations"],
    "all wet states, bathymetries, gravitational accelerations, scalar states, polynomial degrees and meshes",
    "Tests compare numbers for one state; the inequality is over all states.",
    ["finite_volume/shallow_water/solver/energy_stable.py", "finite_element/scalar/solver/cg.py", "finite_element/flux_gradient.py", "finite_volume/scalar/solver"],
    [("energy conservative averages and diffusion in entropy variables", "finite_volume/shallow_water/solver"), ("exact flux gradients", "finite_element/flux_gradient.py")],
    "runtime monitoring: energy-balance monitor on executed fluxes and right-hand sides",
    "Exploration over random wet and scalar states.",
)
prop(
    "C29", "First-order scalar schemes are monotone, limited ones create no variation",
    "With time steps of at most a third of cell length over largest speed and any strong stability preserving ODE solver, local Lax-Friedrichs and low-order continuous Galerkin solutions (advection and Burgers) keep the order of ordered data, inflow data included; on periodic meshes the L1 distance of two solutions and the sum of every convex entropy never grow, nor do (for one unknown per cell) the total variation and, with forward Euler, the number of extrema. The semi-discretisations of the limited schemes (finite volume and linear elements) never increase the total variation, the maxima or lower the minima, plateaus included.",
    ["inputs", "configurations"],
    "all pairs of data, meshes, time steps within the bound, ODE solvers and boundary conditions",
    "Monotonicity is a relation between two solutions for all pairs of data; samples show single values.",
    ["finite_volume/scalar", "finite_element/scalar", "core/riemann_solver.py", "core/local_bounds.py"],
    [("Riemann solver with intermediate states", "core/riemann_solver.py"), ("artificial diffusion", "finite_element/scalar/solver/cg_low.py"), ("limiters", "finite_volume/scalar/solver/mcl.py, finite_element/scalar/solver/mcl.py")],
    "runtime monitoring: comparison, contraction, entropy and variation monitors over pairs of runs",
    "Exploration over random pairs of data.",
)
prop(
    "C30", "Disturbances travel one stencil per evaluation",
    "The rate of change of an unknown depends on its neighbours only: one cell to each side for two-point fluxes, two for limited and network-corrected ones, the own elements for low-order and two elements for limited finite elements (the consistent mass matrix of continuous Galerkin is excepted). Changes of the state, of one value of the bottom or of inflow data leave all other rates as they are; the two ends of a domain see each other through periodic boundaries only. In runs with equal time steps a disturbance travels at most one stencil per stage.",
    ["inputs", "configurations"],
    "all states, disturbances, bottoms, boundary conditions, meshes, steps and ODE solvers",
    "A dependence on distant values needs two data which differ at a distance; tests look at single data.",
    ["finite_volume", "finite_element", "core/boundary.py", "core/riemann_solver.py"],
    [("stencils of neighbouring cells and boundary conditions", "core/boundary.py, finite_volume"), ("local bounds and limiters", "core/local_bounds.py")],
    "runtime monitoring: domain-of-dependence monitor over twin evaluations and twin runs",
    "Exploration over random disturbances.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                },
            }) + "\n")
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": NOTE + p["note"],
            }
            for p in claimed
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in P if p not in claimed
        ],
        "notes": "Pure Python project: no build products; every run compiles /repo's current sources in memory. No hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
