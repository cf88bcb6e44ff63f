"""writes properties.jsonl (kept so that the file has one readable source)"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


S, FV, ST, HY, RS, BC, SL, SE, OD, IC, AM, TI, VI = (
    "fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/stencils.py", "fvhoe/hydro.py", "fvhoe/riemann_solvers.py",
    "fvhoe/boundary_conditions.py", "fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py", "fvhoe/ode.py",
    "fvhoe/initial_conditions.py", "fvhoe/array_management.py", "fvhoe/timer.py", "fvhoe/visualization.py")

prop("C01", "Periodic runs conserve mass, momentum, energy and passive scalars",
     "With periodic boundaries in every active direction, the domain sums of mass, the three momenta, total energy and every passive-scalar mass do not change (up to round-off) over any step of any of the Runge-Kutta integrators. This holds for every resolution, polynomial degree, Riemann solver and slope-limiting configuration, including cells touching the domain edges being flagged as troubled.",
     ["inputs", "configurations", "histories"],
     "all initial data with positive density and pressure, all (nx,ny,nz), (px,py,pz), domains, Riemann solvers, integrators, limiter options, numbers of steps",
     "tests sum a few smooth 1D/2D/3D runs; a loss that needs a troubled edge cell, a non-square grid or blended fluxes is never sampled",
     [S, SL, BC, FV], [("fluxes through the two copies of a periodic face agree", S + ":hydrofluxes"),
                       ("both copies of a periodic face are revised alike", SL + ":broadcast_to_troubled_interfaces"),
                       ("periodic ghost zones", BC + ":_set_periodic_bc"), ("flux differencing telescopes", S + ":euler_equation")],
     ["sum of the cell averages after each step"])
prop("C02", "Cell averages change exactly by the fluxes through their faces",
     "The rate of change of a cell's conserved averages is minus the sum over the active directions of (flux through its upper face minus flux through its lower face) divided by the cell width in that direction. Neighbouring cells share the flux of their common face, inactive directions contribute nothing, and evaluating the right-hand side does not modify the state it is given.",
     ["inputs", "configurations"], "all states, meshes with different widths per direction, subsets of active directions, limiter on or off",
     "tests compare whole solutions on square unit domains, where swapped widths or directions cancel",
     [S], [("flux differencing", S + ":euler_equation"), ("right-hand side assembly", S + ":hydrodynamics")], ["returned rate of change, stored fluxes"])
prop("C03", "A uniform flow stays exactly uniform",
     "If the gas is uniform (one density, velocity, pressure and passive-scalar value everywhere) and the boundaries are periodic, free, outflow or prescribe that same state, then every right-hand-side evaluation is zero (up to round-off) in every cell, and a run of any length returns the same uniform state. This holds in 1D, 2D and 3D, for every degree, Riemann solver and limiter.",
     ["inputs", "configurations"], "all uniform states with positive density and pressure, all directions, degrees, solvers, limiter options",
     "no test runs a uniform state through limiter, free, outflow or prescribed boundaries in all directions",
     [S, FV, RS, BC, SL], [("stencil weights sum to one", ST), ("consistent Riemann solvers", RS), ("ghost zones", BC + ":apply"), ("flux differencing", S + ":euler_equation")],
     ["rate of change", "snapshots"])
prop("C04", "Interpolation and reconstruction are exact for polynomials",
     "For every supported degree p (0 to 8), interpolating cell averages of any polynomial of degree at most p along an axis gives its exact point value at the requested position of each cell (left face, centre, right face), and reconstructing from cell-centre values gives its exact cell average. The operation acts along that axis only, independently for every variable and every line of cells, keeps only the cells whose whole stencil lies in the input, and leaves its input unchanged.",
     ["inputs", "configurations"], "all polynomials of degree <= p, all p in 0..8, all positions, axes, array shapes and dimensions",
     "tests compare selected degrees and positions against sampled functions with tolerances",
     [ST, FV], [("weights", ST + ":get_conservative_interpolation_stencil_weights"), ("weights", ST + ":get_transverse_reconstruction_stencil_weights"), ("sweep", FV + ":stencil_sweep"), ("3D sweeps", FV + ":interpolate_cell_centers, interpolate_fv_averages")],
     ["returned arrays"])
prop("C05", "Face fluxes are averaged Riemann fluxes of the two adjacent cells",
     "The flux through each face is the face average of the chosen Riemann solver's flux between the value reconstructed in the cell below the face (its upper-face value) and the one reconstructed in the cell above it (its lower-face value). The reconstructions act on averaged primitive variables obtained from the conserved averages via cell-centre values, use exactly the requested polynomial degree in each direction (or the slope-limited linear one when limiting), and the face average uses the requested degree in the two transverse directions.",
     ["inputs", "configurations"], "all states, all (px,py,pz) including mixed and zero degrees, all subsets of active directions, all solvers and limiters",
     "tests check convergence of equal-degree runs; mixed degrees, off-by-one trims and swapped sides in one direction are not sampled",
     [S, FV], [("face reconstruction, Riemann call, transverse average, trim", S + ":hydrofluxes"), ("primitive averages", S + ":interpolate_primitives_from_conservatives")],
     ["returned fluxes"])
prop("C06", "The x, y and z directions are treated identically",
     "Permuting the coordinate axes of a problem (initial data, velocity components, resolution, degrees, domain, boundary conditions) permutes the solution in the same way: the rate of change, the fluxes, the time-step size, the troubled cells and the state after any number of steps agree up to round-off. In particular a 1D problem gives the same answer along x, y and z, and a 2D problem in every plane (for prescribed boundaries in 1D only: in 2D and 3D the corner ghost cells of prescribed sides follow the order in which the directions are filled).",
     ["inputs", "configurations"], "all axis permutations, 1D/2D/3D problems, degrees, solvers, limiters and boundary types",
     "tests compare 1D runs along the axes for a few smooth or square profiles",
     [S, FV, RS, BC, SL, SE], [("three copies of the flux computation", S + ":hydrofluxes"), ("flux differencing", S + ":euler_equation"), ("limiting in each direction", SL)],
     ["rate of change", "state after steps"])
prop("C07", "Mirror images evolve as mirror images",
     "Reflecting a problem about the middle of an active direction (reversing the cells along it, negating the velocity component along it, swapping its two boundary conditions) reflects the solution: the rate of change, the time-step size, the troubled cells and the state after any number of steps are the mirror images up to round-off. (The pure-advection solver assumes a uniform velocity, and the absolute range option of the limiter is by its formula not symmetric for negative values; both are excepted.)",
     ["inputs", "configurations"], "all states, each direction, degrees, solvers, limiters and boundary types",
     "tests sample no mirrored pair with limiting; an asymmetric stencil, wave speed or limiter branch survives convergence tests",
     [S, ST, RS, SL, SE, BC], [("mirrored weights", ST), ("symmetric Riemann solvers", RS), ("limiters", SL), ("extrema detector", SE)],
     ["rate of change", "state after steps"])
prop("C08", "Every Riemann solver is consistent with the physical flux",
     "For equal left and right states each Riemann solver returns exactly the Euler flux of that state in the requested direction (the pressureless flux for pure advection), including passive scalars. The flux at an interface depends only on the two states there, and the solvers do not modify their inputs.",
     ["inputs"], "all states with positive density, all directions, gas constants, sound-speed floors, numbers of passive scalars",
     "the tests contain no Riemann-solver unit test",
     [RS, HY], [("solvers", RS + ":hllc, llf, advection_upwind"), ("physical flux", HY + ":compute_fluxes")], ["returned fluxes"])
prop("C09", "HLLC, LLF and upwind fluxes obey their defining relations",
     "The HLLC flux satisfies the jump relations of a three-wave fan with the outer speeds min(vL,vR)-c and max(vL,vR)+c (c the larger sound speed) and the middle wave a contact carrying equal velocity and pressure: it is the upwind physical flux when the fan is supersonic and keeps isolated contacts exactly. The LLF flux is the mean of the two physical fluxes minus half the largest of |v|+c of the two sides times the jump of the conserved state, and the advection flux is the pressureless flux of the upwind side.",
     ["inputs"], "all left/right states with positive density and pressure, all directions, numbers of passive scalars, both signs of every wave speed",
     "tests see the fluxes only through integrated solutions",
     [RS, HY], [("star states and sampling", RS + ":hllc"), ("dissipation", RS + ":llf"), ("upwinding", RS + ":advection_upwind"), ("sound speed", HY + ":compute_sound_speed")], ["returned fluxes"])
prop("C10", "Primitive and conserved variables describe the same gas state",
     "Conversion from primitive to conserved variables gives density, momentum, total energy P/(gamma-1)+rho|v|^2/2 and scalar mass density; the reverse conversion is its exact inverse for every state with positive density. The physical flux in a direction is that of the Euler equations, and the sound speed is the square root of the larger of gamma P/rho and the floor; none of these modifies its input.",
     ["inputs"], "all states with positive density, gamma > 1, floors > 0, directions, numbers of passive scalars, array shapes",
     "tests round-trip random arrays once",
     [HY], [("conversions", HY + ":compute_primitives, compute_conservatives"), ("fluxes", HY + ":compute_fluxes"), ("sound speed", HY + ":compute_sound_speed")], ["returned arrays"])
prop("C11", "Ghost zones continue the solution as the boundary type says",
     "Applying boundary conditions of any widths returns the interior unchanged, surrounded by ghost cells: periodic ones repeat the cells at the opposite end, free ones repeat the edge cell, outflow ones mirror the nearest cells, reflective ones mirror them with the momentum normal to the wall negated; corner ghosts follow from applying this direction by direction. The given state is not modified, and widths that the interior cannot supply are refused with an error instead of leaving garbage.",
     ["inputs", "configurations"], "all states, all widths per direction, all combinations of boundary types per side, all grid sizes, passive scalars",
     "tests use one width and equal types on all sides, mostly 1D",
     [BC], [("padding and dispatch", BC + ":BoundaryCondition.apply"), ("periodic", BC + ":_set_periodic_bc"), ("free", BC + ":_set_free_bc"), ("mirrors", BC + ":_set_symmetric_bc")], ["padded array"])
prop("C12", "Prescribed boundaries impose the given data at the right place and time",
     "On a prescribed side every ghost cell holds the given conserved state: a constant vector as is, a function evaluated at that ghost cell's own centre coordinates and at the time of the Runge-Kutta stage being computed, or the initial condition at that position. On the special double-Mach bottom boundary ghost columns with x < 1/6 repeat the edge cell and the others mirror with negated normal momentum; a request wider than the stored coordinates is refused with an error.",
     ["inputs", "configurations", "histories"], "all prescribed functions, constants, sides, widths, mixed boundary types, meshes, times and integrators",
     "tests impose constants or steady functions in 1D",
     [BC, FV, S, OD], [("slab coordinates", FV + ":fv_uniform_meshgen"), ("trim", BC + ":trim_slabs"), ("imposition", BC + ":_set_dirichlet_bc"), ("stage time", S + ":interpolate_primitives_from_conservatives"), ("ic boundaries", S + ":_init_boundary_conditions")], ["padded array"])
prop("C13", "The time step is the CFL fraction of the fastest signal's crossing time",
     "Unless a fixed step is given (which is then used as is), the step returned with the rate of change is CFL times the smallest cell width of the mesh divided by the maximum over all cells (ghost cells included) of |vx|+|vy|+|vz| plus (number of active dimensions) times the sound speed; it is positive and the state is left unmodified. A step is shortened only to land on a requested time and the first stage fixes it for the whole step.",
     ["inputs", "configurations"], "all states with positive density, meshes, CFL numbers, dimensions, floors",
     "tests never examine the step size itself",
     [HY, S, OD], [("step size", HY + ":hydro_dt"), ("smallest width, active dimensions, fixed step", S + ":hydrofluxes"), ("landing on targets", OD + ":_hit_target")], ["returned step size"])
prop("C14", "Integrators are the Runge-Kutta methods of their stated order",
     "For any right-hand side f(t,u), one step of the Euler, SSP-RK2, SSP-RK3 and RK4 integrators equals an explicit Runge-Kutta step whose coefficients satisfy all order conditions up to order 1, 2, 3 and 4, with every stage evaluated at the time matching its stage state and the step size fixed by the first stage (shortened only to land on a requested time). The run method picks the integrator of order min(max degree, 3) + 1, and a step does not modify the state before it is complete.",
     ["inputs", "programs"], "all right-hand sides (linear, nonlinear, time-dependent), states, step sizes, target times",
     "tests check convergence of autonomous or few ODEs; a wrong stage time does not show there",
     [OD, S], [("steppers", OD + ":euler, ssprk2, ssprk3, rk4"), ("choice", S + ":run"), ("advance", OD + ":take_step")], ["state after a step", "times at which f is evaluated"])
prop("C15", "Runs stop and take snapshots at exactly the requested times",
     "A run to time T performs positive steps that sum to the final time, records every step time, never passes a requested intermediate time or T (when exact), and ends at T. Snapshots are taken at the start, at each requested time in (start, T] in increasing order whatever order or duplicates they were given in, and at the end (after every step if so asked); a run of n steps takes exactly n steps with a snapshot before and after.",
     ["inputs", "histories", "configurations"], "all target times, downbeat lists, step-size sequences, repeated runs of one solver object, exact or not",
     "tests use few downbeats with convenient step sizes and fresh solvers",
     [OD], [("loop", OD + ":integrate"), ("landing", OD + ":_hit_target"), ("advance", OD + ":take_step")], ["snapshot_times, timestamps, t, step_count"])
prop("C16", "Slope-limited faces create no new extrema and keep linear data",
     "The limited linear reconstruction places the two face values of a cell symmetrically about its average with a slope that vanishes where the neighbouring differences have opposite signs, otherwise has their sign and equals the smaller of the two (minmod) or the smallest of the centred slope and twice each of them (moncen), so each face value lies between the averages of the cell and its neighbour on that side (all up to round-off). With both limiters linear data is reproduced; without limiter the centred slope is used; the operation is independent per line and variable along the chosen axis and mirror symmetric.",
     ["inputs"], "all data, axes, limiters, shapes",
     "tests check a few profiles",
     [SL], [("limiters", SL + ":minmod, moncen"), ("faces", SL + ":MUSCL_interpolations")], ["returned faces"])
prop("C17", "Troubled cells are exactly those the admissibility criteria reject",
     "A cell is troubled if and only if its candidate value of a bounded variable leaves its physical bounds, or that of a selected variable leaves the range of the old values of the cell and its adjacent neighbours, diagonal ones included (extended by the tolerance times the global or local range; or, for the absolute option, leaves the local or global minimum and maximum scaled by one minus and one plus the tolerance) and, when smooth-extrema detection is on, that variable's extremum is not smooth in the active directions. Reported violation magnitudes are zero for untroubled criteria and otherwise the largest excess over the variables.",
     ["inputs", "configurations"], "all old and candidate states, dims, tolerances, modes, variable selections, bounds, smooth-extrema options",
     "tests exercise default options and smooth or square profiles",
     [SL, SE], [("criteria", SL + ":detect_troubled_cells"), ("smooth extrema", SE)], ["trouble, magnitudes"])
prop("C18", "Fallback replaces fluxes exactly at the faces of troubled cells",
     "Where limiting acts, the final flux through each face is (1-theta) times the high-order flux plus theta times the slope-limited low-order flux of the same state, with theta in [0,1]: without convex blending theta is 1 on every face of a troubled cell and 0 elsewhere; with it theta is the larger of the weights of the two cells sharing the face, 1 in troubled cells, 3/4 in their face neighbours, 1/2 in their diagonal neighbours and 1/4 in the next ring (1D and 2D). In periodic directions trouble wraps around and the first and last face are treated as one; if no cell is troubled the fluxes are untouched, and forced trouble makes every face low-order.",
     ["inputs", "configurations"], "all trouble patterns, dims, periodic flags, sizes, states",
     "tests look at single troubled cells in the interior",
     [SL, S], [("face flags", SL + ":broadcast_to_troubled_interfaces"), ("convex weights", SL + ":convex_1d_broadcast_to_troubled_interfaces, convex_2d_broadcast_to_troubled_interfaces"), ("blend", S + ":revise_fluxes")], ["face flags", "fluxes after limiting"])
prop("C19", "Passive scalars ride with the gas and never affect it",
     "Adding, removing or changing passive scalars changes nothing in the density, velocity, pressure, time step or troubled cells of a run. Every passive scalar obeys the same equation independently of the others and of their order and names: a uniform scalar stays uniform, and without limiting the scalar mass depends linearly on its initial values.",
     ["inputs", "configurations"], "all scalar fields, numbers, orders and names of scalars, all configurations",
     "tests run one or two scalars in one set-up",
     [HY, RS, S, SL], [("conversions and fluxes", HY), ("contact upwinding", RS + ":hllc"), ("active variables only in detection", S + ":revise_fluxes")], ["rate of change, state"])
prop("C20", "Snapshots are faithful copies and survive a round trip to disk",
     "Each snapshot holds the time, the mesh and the primitive variables of the state at that moment (cell averages, or cell-centre values if so configured) as copies that later steps do not alter. Writing a finished run and re-running with the same directory returns the identical snapshot list without recomputing, an existing directory is never overwritten unless asked for, and overwriting leaves only the new run's data.",
     ["inputs", "histories", "configurations"], "all configurations (including conservative or averaged initial data, limiters, passive scalars), all directories, repeated runs",
     "tests write one default run",
     [S, OD, AM], [("snapshot", S + ":snapshot"), ("read/write", S + ":read_snapshots, write_snapshots"), ("reuse", OD + ":integrate"), ("copies", AM + ":get_numpy")], ["snapshot lists, directory contents"])
prop("C21", "Mesh and initial cell averages are exact",
     "Cell centres are the midpoints of equal cells tiling the domain in each direction, ghost-slab coordinates continue that mesh outside each side, and a direction is active exactly when it has more than one cell or a positive degree. Initial conserved averages are Gauss-Legendre averages of the conserved initial state over each cell, exact for polynomials up to degree p in each direction, use the data as given when it is declared conservative or averaged, and hold every passive scalar in its own row.",
     ["inputs", "configurations"], "all domains, resolutions, degrees, initial conditions, slab widths, passive scalars",
     "tests check a few meshes and quadrature of sample functions",
     [FV, S, IC], [("mesh", FV + ":fv_uniform_meshgen"), ("quadrature", FV + ":get_legendre_quadrature, fv_average"), ("set-up", S + ":_init_mesh, _init_initial_conditions"), ("initial conditions", IC + ":InitialCondition.build_ic")], ["mesh arrays, initial state"])
prop("C22", "Named variables and stored arrays always address the right data",
     "Every variable name selects its own row (primitive and conserved names of one slot coincide, groups select their members, passive scalars follow in the given order), coordinate cuts select the requested range on the requested axis and nothing else, and unknown, duplicate or reserved names and malformed cuts are refused. The array store returns exactly the array stored under a name, refuses to replace or invent one, hands out independent copies on request, and the timer accumulates each category separately and refuses unbalanced starts and stops.",
     ["inputs", "histories"], "all variable names, scalar lists, cuts, array dimensions; all sequences of store and timer operations",
     "tests sample some names and cuts",
     [HY, AM, TI], [("registry", HY + ":HydroState"), ("store", AM + ":ArrayManager"), ("timer", TI + ":Timer")], ["returned indices, arrays, times"])
prop("C23", "Periodic problems are invariant under shifts",
     "With periodic boundaries in a direction, shifting the initial cell averages by any whole number of cells along it shifts the rate of change, the fluxes, the troubled cells and the state after any number of steps by the same number of cells, and leaves the time-step size unchanged, up to round-off. This holds for every degree, Riemann solver and limiter configuration: no cell is special.",
     ["inputs", "configurations"], "all states, shifts, directions, degrees, solvers, limiter options",
     "tests advect profiles once around smooth domains; edge-specific errors under limiting are not compared",
     [S, BC, SL, SE], [("periodic ghost zones", BC + ":_set_periodic_bc"), ("periodic face flags", SL + ":broadcast_to_troubled_interfaces")], ["rate of change, state"])
prop("C24", "Reported limiter activity is the mean over the stages of each step",
     "After every completed step the reported trouble and violation magnitudes of each cell are the arithmetic means of what was detected in that cell at each Runge-Kutta stage of that step and of no other, including the first step; trouble values lie in [0,1]. Snapshots of limited runs carry these arrays with one value per cell, and unlimited runs carry none.",
     ["inputs", "histories", "configurations"], "all states, integrators, numbers of steps, limiter options",
     "no test reads the reported values",
     [S], [("accumulation", S + ":log_troubles"), ("reset", S + ":step_helper_function"), ("export", S + ":snapshot")], ["snapshot entries"])
prop("C25", "Plots show the nearest snapshot and coordinates asked for",
     "Plotting and sampling helpers use the snapshot nearest in time (the last one by default) and the cells nearest to the given coordinates, and return the values of the requested variable there, oriented so that the horizontal and vertical axes match the data; speed is the length of the velocity. Overlaid trouble marks exactly the cells with a reported bound violation or a range violation above the tolerance (according to the mode), and radial averages are the means over the cells in each bin (undefined for empty bins).",
     ["inputs"], "all snapshot lists, times, coordinates, slices, variables, tolerances, bins",
     "the tests do not cover visualization",
     [VI], [("lookup", VI + ":get_indices_from_coordinates"), ("slices", VI + ":plot_1d_slice, plot_2d_slice"), ("overlay", VI + ":plotting_trouble"), ("bins", VI + ":sample_circular_average")], ["plotted data"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
