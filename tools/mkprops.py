#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["dg1d/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="dg1d/" + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Conserved quantities change only through the two domain ends",
 "For every mesh, order, system, numerical flux and state, the mesh integral of each conserved quantity changes in time only by the difference of the numerical fluxes at the two ends of the domain, so it stays constant with periodic ends. "
 "Inside the domain, what one cell loses through a face its neighbour gains exactly. "
 "Every complete time step of every Runge-Kutta option, limited or not, inherits this.",
 ["inputs", "configurations", "histories"], "all numbers of cells, orders, field values, numerical fluxes (any function), Runge-Kutta options and numbers of steps",
 "The unit tests compare one 4x6 array and the regressions compare six shock tubes to golds with open ends; none sums the conserved quantities, none is periodic.",
 ["dg.py", "solution.py", "basis.py", "rk.py", "limiting.py"],
 [("face flux difference enters mode 0 with opposite signs on the two sides", "dg.py DG.add_interior_face_fluxes"),
  ("gradient of the constant mode vanishes", "basis.py Basis.evaluate_basis_gauss"),
  ("periodic ghosts", "solution.py Solution.apply_bc"), ("linear stage combination", "rk.py classic_rk, low_storage_rk4"),
  ("cell average kept by the limiter", "limiting.py Limiter.limit_monomial")],
 [("mode 0 coefficients", "cell averages", "solution.u[0]")], ["DG.residual", "Solution.u before and after a step"])

prop("C02", "The time derivative is the discontinuous Galerkin weak form",
 "For every interior cell, mode and field, the computed time derivative equals (2n+1)/dx times [ the Gauss-quadrature integral over the reference cell of the physical flux, taken at the cell's quadrature points, against the derivative of the n-th Legendre polynomial, minus the numerical flux on the right face, plus (-1)^n times the numerical flux on the left face ]. "
 "The numerical flux on a face receives the trace of the cell to its left and the trace of the cell to its right, in that order, with ghost cells filled first. "
 "This holds for any flux function, mesh, order and data.",
 ["inputs", "configurations"], "all orders, numbers of cells, field counts, data and flux functions",
 "No test evaluates a residual; the two DG tests feed one small integer array to two helper methods.",
 ["dg.py", "solution.py", "basis.py"],
 [("residual assembly", "dg.py DG.residual"), ("quadrature and gradient tables", "basis.py Basis.evaluate_basis_gauss"),
  ("face traces", "solution.py Solution.collocate_faces"), ("scaled inverse mass matrix", "solution.py Solution.setup_common_ic")],
 [("dgsolver.F", "residual", "dg.py")], ["DG.residual"])

prop("C03", "A uniform state is a steady state",
 "If every cell holds the same constant state, the computed time derivative is zero in every interior cell, for every order, number of cells, boundary type, system and numerical flux option. "
 "Limiting such a state leaves it unchanged.",
 ["inputs", "configurations"], "all orders, meshes, admissible states, fluxes, boundary types",
 "No test or regression has a uniform state, and cancellation of volume and face terms has to hold for each order and flux.",
 ["dg.py", "basis.py", "euler_physics.py", "advection_physics.py", "solution.py", "limiting.py"],
 [("volume and face terms cancel", "dg.py DG.residual"), ("flux consistency", "euler_physics.py riemann_*")],
 [], ["DG.residual", "Limiter.limit"])

prop("C04", "Ghost cells mirror the boundary condition of each side",
 "After boundary conditions are applied, a periodic side's ghost cell equals the interior cell at the opposite end of the domain and a zero-gradient side's ghost cell equals the adjacent interior cell, in every mode and field. "
 "No interior cell changes, and this depends only on the value of the boundary name of that side, including for solutions loaded from file.",
 ["inputs", "configurations"], "all numbers of cells, orders, field counts, data and the four combinations of left/right conditions, however the names were obtained",
 "Boundary handling has no unit test; regressions only use zero-gradient on both sides with three fields.",
 ["solution.py"], [("ghost fill", "solution.py Solution.apply_bc")],
 [("solution.u", "coefficients with one ghost cell per side", "solution.py")], ["Solution.apply_bc"])

prop("C05", "Numerical fluxes are consistent with the physical flux",
 "Each numerical flux, given the same admissible state on both sides of a face, returns the exact physical flux of that state: u for advection, and (momentum, momentum*velocity + pressure, (energy + pressure)*velocity) for the Euler equations. "
 "The volume flux is that same physical flux at every quadrature point, and fluxes at different faces do not influence one another.",
 ["inputs"], "all admissible states (positive density and pressure), velocities of either sign, ratios of specific heats above one, numbers of faces",
 "The flux tests use six fixed left/right pairs, none with equal states.",
 ["euler_physics.py", "advection_physics.py"],
 [("fluxes", "euler_physics.py riemann_rusanov, riemann_roe, riemann_godunov, interior_flux"), ("advection flux", "advection_physics.py riemann_upwinding, interior_flux")],
 [], ["riemann_*", "interior_flux"])

prop("C06", "Numerical fluxes upwind",
 "For advection the face flux is the left state. "
 "For the Godunov flux, when the left state moves right at or above its sound speed the face flux is the physical flux of the left state, otherwise, when the right state moves left at or above its sound speed, it is that of the right state. "
 "For the Roe flux the same holds whenever all wave speeds of the Roe average have one sign and no entropy correction applies.",
 ["inputs"], "all admissible left and right states, ratios of specific heats above one, any number of faces",
 "Only one of the six tested pairs is supersonic (to the right); none moves left.",
 ["euler_physics.py", "advection_physics.py"],
 [("supersonic branches", "euler_physics.py riemann_godunov"), ("Roe averages, wave strengths and eigenvectors", "euler_physics.py riemann_roe")],
 [], ["riemann_godunov", "riemann_roe", "riemann_upwinding"])

prop("C07", "Euler fluxes have no preferred direction",
 "Reflecting space (swapping left and right states and negating both momenta) negates the mass and energy components of the Rusanov, Roe and Godunov face fluxes and leaves the momentum component unchanged, for all admissible pairs of states for which the flux is produced.",
 ["inputs"], "all admissible left/right pairs, ratios of specific heats above one",
 "The six tested pairs are never reflected; left-moving branches are barely executed.",
 ["euler_physics.py"],
 [("left and right treated alike", "euler_physics.py riemann_rusanov, riemann_roe, riemann_godunov, massflux, sonic")],
 [], ["riemann_*"])

prop("C08", "Flux dissipation: Rusanov bound and exactly resolved waves",
 "The Rusanov flux is the mean of the two physical fluxes minus half the jump times the larger of the two local |velocity| + sound speed. "
 "The Roe flux leaves a contact discontinuity at rest exactly unsmeared and, up to its documented entropy correction (which never lowers a wave speed's magnitude), splits the flux difference exactly into its three waves. "
 "The Godunov flux also keeps a contact discontinuity at rest exactly.",
 ["inputs"], "all admissible pairs, all density jumps and pressures, ratios of specific heats above one",
 "One stationary contact and five other fixed pairs are tested.",
 ["euler_physics.py"],
 [("Rusanov dissipation", "euler_physics.py riemann_rusanov"), ("Roe linearisation and entropy fix", "euler_physics.py riemann_roe"), ("star state", "euler_physics.py riemann_godunov")],
 [], ["riemann_*"])

prop("C09", "The time step obeys the CFL limit or the run stops",
 "Every proposed time step equals CFL * cell size / ((2*order+1) * s), where s is the largest signal speed over the cell averages of all cells, ghosts included: 1 for advection and the maximum of |velocity| + sound speed for Euler; in particular no cell's signal speed exceeds s. "
 "The run stops with an error message, without advancing, when the proposed step is below 1e-14 or not a number.",
 ["inputs", "configurations"], "all states, meshes, orders, CFL numbers; all IEEE doubles for the sanity check",
 "One 12-column array is tested for the wave speed; neither the time-step formula nor the abort conditions have a test.",
 ["rk.py", "euler_physics.py", "advection_physics.py", "solution.py"],
 [("wave speed", "euler_physics.py max_wave_speed"), ("CFL formula", "rk.py cfl_time_step"), ("sanity check", "rk.py sanity_check_dt")],
 [], ["rk.get_next_time_step"])

prop("C10", "Every requested snapshot is written once, in order, at its time",
 "A run asked for N >= 2 outputs up to the final time writes exactly the snapshots 0..N-1, each once and in order, snapshot k at time t0 + k*(final time - t0)/(N-1), whatever the sequence of stable time steps. "
 "Time never decreases, never passes the next pending output time, and the run ends exactly at the final time; the step counter counts the steps.",
 ["histories", "inputs", "configurations"], "all final times, output counts and sequences of positive CFL steps of any size, including steps larger than the output spacing; every time integrator",
 "Three fixed calls test the step clipping; regressions ask for two outputs only, so an intermediate output is never exercised.",
 ["rk.py"], [("output clipping", "rk.py adjust_for_output"), ("main loops", "rk.py classic_rk, low_storage_rk4")],
 [("nout, tout", "next snapshot number and time", "rk.py")], ["Solution.printer calls", "files written"])

prop("C11", "Each Runge-Kutta table has the order its name claims",
 "For each named scheme (3, 4, 5, 6, 8, 10, 12, 14) and the low-storage scheme (4) the weights sum to one, every stage is explicit with stage time equal to its row sum, and all order conditions up to the named order hold to rounding accuracy. "
 "Consequently one step reproduces the exact solution of every smooth problem up to that order.",
 ["configurations", "inputs"], "all rooted-tree order conditions up to the named order of each scheme",
 "No test touches the tables; regressions use rk4 and rk8 at 1e-10 on limited shock problems where most coefficient errors in other tables are invisible.",
 ["rk_coeffs.py", "rk.py"], [("tables", "rk_coeffs.py get_rk*_coefficients"), ("low-storage coefficients", "rk.py low_storage_rk4")],
 [], ["get_rk*_coefficients"])

prop("C12", "A time step is exactly the selected Runge-Kutta update",
 "For any spatial operator, one step from (t, u) evaluates stage k at u + sum_j beta[k][j] K_j, limited for k > 0, sets K_k to dt times the operator there, and produces u + sum_k c_k K_k, then fills ghosts and limits; nothing else of the previous step leaks in. "
 "The low-storage option performs the classical four-stage fourth-order update. "
 "Time and step count advance by dt and one.",
 ["inputs", "configurations", "histories"], "any operator and limiter, any table with the documented shape, any data, any number of previous steps",
 "No unit test runs a time step; regressions exercise rk4 and rk8 on six decks, and never low-storage, rk3, rk5, rk6, rk10, rk12 or rk14.",
 ["rk.py", "solution.py"], [("stage loop", "rk.py classic_rk"), ("low storage loop", "rk.py low_storage_rk4"), ("axpy", "solution.py Solution.smart_axpy, copy_data_only")],
 [("K", "stage increments", "rk.py")], ["DG.residual arguments", "Solution.u after a step"])

prop("C13", "Sensors flag exactly the cells next to a detected jump",
 "After sensing, a cell carries a flag if and only if one of its two faces meets the documented criterion: for advection 2*phi/(1+phi)^2 of the jump of cell averages above the threshold (flag 1); for Euler the contact criterion (flag 1) or the shock criterion with converging acoustic speeds (flag 2, taking precedence). "
 "All other flags are zero, whatever they were before, and the solution is not modified.",
 ["inputs", "histories"], "all meshes, admissible states, thresholds and previous flag values",
 "Two fixed meshes of 10 and 12 cells are tested, each from clean flags.",
 ["sensor.py", "euler_physics.py", "advection_physics.py"],
 [("reset and dispatch", "sensor.py Sensor.sensing"), ("criteria", "euler_physics.py sensing; advection_physics.py sensing")],
 [("sensors", "one flag per cell incl. ghosts", "sensor.py")], ["Sensor.sensors"])

prop("C14", "Limiting touches only flagged cells and sees unlimited neighbours",
 "Applying the limiter replaces the coefficients of exactly the flagged interior cells, each field by the reconstruction computed from that field of the cell and its two neighbours as they were before limiting; all other interior coefficients stay identical and ghost cells are refreshed. "
 "Results do not depend on the order in which cells are visited, and with limiting disabled nothing changes.",
 ["inputs", "configurations"], "all meshes, field counts, data and sensor outcomes",
 "The three limiter tests force every cell to be flagged on five periodic cells.",
 ["limiting.py"], [("cell loop with a separate output array", "limiting.py Limiter.adaptive_hr"), ("off switch", "limiting.py Limiter.limit")],
 [("ulim", "limited copy", "limiting.py")], ["Limiter.limit"])

prop("C15", "Limiting preserves every cell average",
 "For every order and any data in a cell and its neighbours, the hierarchical-reconstruction limiter returns a polynomial with the same cell average as the original. "
 "The transforms between Legendre and monomial coefficients represent the same polynomial and are inverse to each other.",
 ["inputs", "configurations"], "all coefficient vectors of the three cells, each supported order",
 "Golden arrays for orders 1-3 on five smooth cells; averages of arbitrary data, and other orders, are not covered.",
 ["limiting.py", "basis.py"],
 [("average taken from the remainder equation", "limiting.py Limiter.limit_monomial"), ("transforms", "limiting.py Limiter.__init__, hr")],
 [], ["Limiter.hr"])

prop("C16", "The limiter keeps linear data and never steepens",
 "If the three cells hold one and the same linear function, limiting the middle cell returns it unchanged at every order. "
 "The limited highest-order coefficient is the minmod of the two one-sided differences of the averages of the next lower derivative (zero if they differ in sign, otherwise the smaller in magnitude), and at order one the limited linear part is that minmod of half the neighbouring average differences.",
 ["inputs", "configurations"], "all linear functions and, for the slope bound, all coefficient vectors",
 "A handful of fixed vectors per order.",
 ["limiting.py"], [("minmod", "limiting.py scalar_minmod"), ("candidates", "limiting.py Limiter.limit_monomial"), ("integral tables", "limiting.py integrate_monomial_derivative*")],
 [], ["Limiter.limit_monomial", "scalar_minmod"])

prop("C17", "A written snapshot reloads to the same solution",
 "Loading a written snapshot restores step number, time, boundary conditions, cell count, mesh and every interior coefficient of every field without loss of precision, and the loaded solution has the same face values, ghost cells and time derivative as the one written. "
 "A snapshot lists one line per interior cell (centroid, then all modal coefficients), one file per field, and never contains ghost cells; sensor files list one flag per interior cell.",
 ["inputs", "configurations"], "all cell counts from two, orders, systems, boundary pairs and coefficient values",
 "Nothing loads a snapshot in the tests; golds check only one output number and 10 decimals.",
 ["solution.py"], [("writer", "solution.py Solution.printer"), ("reader", "solution.py Solution.loader"), ("file names", "solution.py Solution.format_fnames")],
 [], ["files", "Solution after loader"])

prop("C18", "A deck file sets exactly the options it names",
 "Parsing a deck gives each option named by a header line the value on the following line (trailing whitespace removed, numbers converted, thresholds split on blanks), the last one winning, and every option not named keeps its documented default. "
 "The order of the entries and unknown lines between them make no difference, and a deck written by the deck writer parses back to the values given.",
 ["inputs", "configurations"], "all sequences of recognised entries and unknown lines, all values",
 "No unit test parses a deck; the six regression decks share one layout and never set enhancement.",
 ["deck.py"], [("parser", "deck.py Deck.parser"), ("writer", "deck.py write_deck")],
 [], ["Deck attributes"])

prop("C19", "The solver that runs is the one the deck selected",
 "The system, numerical flux, time integrator, limiter, face enhancement and sensor thresholds used in a run are those named in the deck, with the documented defaults (Roe for Euler, classical fourth-order Runge-Kutta for unknown schemes, no limiting, no enhancement). "
 "Advection always uses the upwind flux, and selections of one solution do not alter those of another.",
 ["configurations"], "all combinations of option values, including unknown names",
 "Regressions use two fluxes, two integrators, one limiter, and no enhancement.",
 ["solution.py", "rk.py", "limiting.py", "main.py"],
 [("function tables", "solution.py Solution.set_manipulation_functions"), ("integrator dispatch", "rk.py integrate"), ("limiter dispatch", "limiting.py Limiter.__init__"), ("wiring", "main.py main block")],
 [], ["Solution.keywords", "rk.integrate"])

prop("C20", "Initial data interpolate the initial condition on a uniform mesh",
 "The mesh divides the problem's domain into the requested number of equal cells with centroids at the cell middles; in each cell and field, the initial polynomial takes the value of the initial condition's matching component at every quadrature point of that cell. "
 "Hence each initial cell average is the Gauss quadrature of the initial condition, and data that are polynomial of at most the chosen order are reproduced exactly.",
 ["inputs", "configurations"], "all cell counts, orders, field counts and initial-condition functions",
 "One two-cell mesh and two projections at order 3 are tested, with a single field.",
 ["solution.py", "basis.py"],
 [("projection", "basis.py Basis.projection, shifted_xgauss"), ("cell loop", "solution.py Solution.populate, setup_common_ic, add_ghosts")],
 [], ["Solution.u, x, xc, dx"])

prop("C21", "Built-in initial conditions are the documented, physical states",
 "Every built-in Euler initial condition has positive density and pressure everywhere, with energy equal to pressure/(gamma-1) plus kinetic energy. "
 "The shock tube takes the deck's left state strictly left of the diaphragm and the right state from it on, the entropy wave has constant velocity and pressure, the acoustic wave is at rest with equal density and pressure perturbations, and the simple waves have constant entropy and constant incoming Riemann invariants on each half.",
 ["inputs"], "all positions in the domain, all shock tube parameters",
 "Only scktube is run by regressions, at six parameter sets; simplew, acsticw and shuoshe are never executed.",
 ["solution.py"], [("initial condition functions", "solution.py simplew, entrpyw, acsticw, scktube, shuoshe, sinewave")],
 [], ["point values of the initial condition"])

prop("C22", "Enhanced face values are exact for polynomials of the enhanced degree",
 "With face enhancement by a set of neighbour modes, if two neighbouring cells hold the projections of one polynomial of degree at most order + number of modes, both enhanced traces at their common face equal the polynomial's value there. "
 "For arbitrary data each enhanced trace is the face value of the unique polynomial of that degree whose modes match all of the own cell and the selected ones of the neighbour.",
 ["inputs", "configurations"], "every order and mode set up to the stated order, all cell counts, field counts and data",
 "Two mode sets at orders 1 and 2 are compared to fixed numbers.",
 ["enhance.py", "basis.py"],
 [("enhancement matrices", "enhance.py enhancement_matrices"), ("face vectors", "enhance.py left_enhancement_vectors"), ("application", "enhance.py Enhance.face_value")],
 [], ["Enhance.face_value"])

prop("C23", "Basis tables are exact for the Legendre basis",
 "For every order p the evaluation table holds the Legendre polynomials at the p+1 Gauss points, the gradient table their derivatives times the Gauss weights, the face table (-1)^n and 1, and the mass table 2/(2n+1) with its reciprocal. "
 "Shifting a Legendre series by s represents x -> l(x+s), and the product integral is the exact integral over [-1,1].",
 ["configurations", "inputs"], "all orders; all series up to the stated degree for shift and product",
 "Only order 3 tables and one shift and one product are compared to numbers.",
 ["basis.py"], [("tables", "basis.py Basis.evaluate_basis_gauss, evaluate_basis_edges, mass_matrix"), ("series operations", "basis.py shift_legendre_polynomial, integrate_legendre_product")],
 [], ["Basis attributes"])

prop("C24", "Evaluation does not disturb its inputs, and copies are independent",
 "Computing traces, point values, fluxes, wave speeds or sensors leaves the solution unchanged, and computing the time derivative changes nothing but ghost cells. "
 "A copy of a solution shares no data with the original: advancing, limiting or evaluating one never changes or reads the coefficients of the other, also with face enhancement.",
 ["inputs", "histories", "configurations"], "all data, meshes, orders, options and sequences of operations on original and copy",
 "No test modifies a copy or checks that inputs stay untouched.",
 ["solution.py", "dg.py", "enhance.py", "rk.py", "euler_physics.py"],
 [("deep copy", "solution.py Solution.copy"), ("data copy", "solution.py Solution.copy_data_only"), ("fresh flux arrays", "euler_physics.py")],
 [], ["Solution.u before/after"])

prop("C25", "The Godunov flux comes from a converged, complete star state",
 "Where the flow is not supersonic, the Godunov flux is evaluated only after the star pressure's fixed-point residual fell below the tolerance, and otherwise the run stops with an error; every such face then gets a flux determined by its own two states. "
 "The mass flux is the exact Rankine-Hugoniot one across shocks and the exact isentropic one across rarefactions, and inside a sonic rarefaction the flux state has velocity equal to the local sound speed.",
 ["inputs"], "all admissible pairs of states and all iterates",
 "Six pairs compared at 1e-6; the left sonic branch and the non-convergence exit are not exercised.",
 ["euler_physics.py"],
 [("fixed-point loop", "euler_physics.py riemann_godunov"), ("wave curves", "euler_physics.py massflux"), ("sonic states", "euler_physics.py sonic")],
 [], ["riemann_godunov", "massflux", "sonic"])

prop("C26", "Advection never gains energy",
 "For the advection system with periodic ends, the time derivative of the integral of u^2 is never positive, for every order, mesh and data; in each cell it is bounded by what the faces exchange, minus half the square of the jump at its inflow face.",
 ["inputs", "configurations"], "all meshes, data and orders (stated bound on the order)",
 "Advection is not time-stepped in any test.",
 ["dg.py", "advection_physics.py", "basis.py", "solution.py"],
 [("upwind trace", "advection_physics.py riemann_upwinding"), ("exact volume quadrature", "basis.py Basis.__init__")],
 [], ["DG.residual"])

prop("C27", "The stability analysis studies the scheme the solver runs",
 "The one-cell matrices used by the stability analysis (volume, own-face and neighbour-face matrices, with and without enhancement) reproduce, for every order and mode set up to the stated bound, the solver's advection time derivative on a periodic wave: minus right-face plus left-face plus volume term. "
 "The tables the analysis uses for each time integrator are the ones the solver integrates with.",
 ["configurations", "inputs"], "all orders and mode sets up to the stated bound",
 "The analysis scripts have no tests.",
 ["../analysis/dg_stability.py", "../analysis/rk_stability.py", "enhance.py", "basis.py", "rk_coeffs.py"],
 [("matrices", "../analysis/dg_stability.py"), ("tables", "../analysis/rk_stability.py get_formatted_rk_coeffs")],
 [], ["dg_matrices", "icb_matrices", "get_formatted_rk_coeffs"])

prop("C28", "Godunov star-pressure iteration converges for every non-vacuum pair",
 "For every pair of admissible states that does not generate vacuum, the Godunov flux is produced rather than the run being stopped for non-convergence.",
 ["inputs"], "all admissible non-vacuum pairs",
 "Six pairs are tested.",
 ["euler_physics.py"], [("fixed-point loop", "euler_physics.py riemann_godunov")], [], ["riemann_godunov"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        p["anchors"]["files"] = [x.replace("dg1d/../", "") for x in p["anchors"]["files"]]
        for m in p["anchors"]["mechanism"]:
            m["where"] = m["where"].replace("dg1d/../", "")
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
