DIRECT = ("Every case in the stated bound is run on the real classes (no sampling) and compared with an independently "
          "written reference; nothing is said about sizes, values and depths outside the bound. ")

prop("G01", "Cells, coordinates and shapes number one and the same grid",
     "For every grid, cell ids count all cells in x-then-y-then-z order including the boundary layer of the flow directions, and ids, coordinates, array positions and shapes are the same numbering seen in different formats. "
     "Converting id to coordinates or array position and back is the identity, with and without boundary cells, flat or in flow shape, unified or not.",
     ["configurations", "inputs"], "all grid sizes (nx, ny, nz), both values of every format option, every cell",
     "Tests compare a few hand-made grids with printed arrays; wrong numbering for another dimension mix or option goes unseen.",
     [("shape/order/id/coords queries", GRID + ":get_shape, get_fshape, get_order, get_cells_id, get_cells_coords"),
      ("conversions", GRID + ":get_cell_id, get_cell_coords, get_cell_icoords, get_cells_icoords")],
     ["return values of the grid queries"], DIRECT + "Reference numbering on (i,j,k) triples.")

prop("G02", "Neighbours and boundary cells are the face adjacency of the grid",
     "For every cell, the reported neighbours per direction are exactly the cells which share a face with it, split correctly into inner cells and boundary cells, by id and by coordinates in every output format. "
     "The boundary of a grid is exactly the set of cells outside the reservoir, and questions which only make sense for inner cells are refused for boundary cells.",
     ["configurations", "inputs"], "all grid sizes, every cell, id/coords, all output formats",
     "Tests sample cells of a few grids; adjacency errors at corners, edges or thin grids are only visible when every cell of every shape is asked.",
     [("neighbours", GRID + ":get_cell_neighbors"), ("boundary of a cell", GRID + ":get_cell_boundaries"),
      ("boundary of the grid", GRID + ":get_boundaries"), ("set helpers", HELP + ":intersection, isin, reformat")],
     ["return values of neighbour and boundary queries"], DIRECT + "Reference adjacency from coordinates.")

prop("G03", "Removing or extracting the boundary picks exactly the right cells",
     "Removing boundaries (both sides, left or right only) from a field keeps exactly the values of the remaining cells in order, and extracting boundaries keeps exactly those of the boundary cells. "
     "This holds for flat and shaped, scalar and point fields and dictionaries of fields; the caller's data is never modified, and fields of a wrong size are refused.",
     ["configurations", "inputs"], "all grid sizes x field layouts x sides x formats",
     "Tests use a few shapes; slicing mistakes show only for particular dimension/option combinations.",
     [("removal", GRID + ":remove_boundaries"), ("extraction", GRID + ":extract_boundaries"), ("points/shape checks", HELP + ":ispoints, shape_error, reformat")],
     ["returned fields, input fields after the call"], DIRECT + "Field values are pairwise distinct.")

prop("G04", "Sizes, areas, volumes, centers and corners agree with the spacing",
     "Cell sizes, face areas, volumes, total volume, centers and the drawn boxes are those of a tiling with the given spacing, boundary cells included, whichever query, format or backend (own arithmetic or viewer) gives them. "
     "A grid calls itself regular exactly when its cells have equal sizes. Spacing which does not give one size per cell is refused.",
     ["configurations", "inputs"], "all grid sizes x constant, varying, thin or boundary-only-varying spacing per axis x all query options, every cell",
     "Tests check uniform or single-axis spacing; axis mix-ups cancel out with equal spacing.",
     [("spacing", GRID + ":__calc_cells_d, get_cells_d, get_cell_d"), ("areas/volumes", GRID + ":__calc_cells_A, __calc_cells_V, get_Vt"),
      ("centers/boxes", GRID + ":get_cells_center, get_pyvista_grid, get_corners")],
     ["return values of geometry queries, boxes of the viewer grid"], DIRECT)

prop("G05", "Grid answers follow the latest property values",
     "After any history of property updates - all cells, arrays, single cells by id or coordinates, several properties at once, rejected updates - every property query, permeability query and homogeneity/isotropy/regularity flag answers from the latest values. "
     "No answer from before an update is ever given after it, including transmissibility factors, and a rejected value changes nothing.",
     ["histories", "inputs"], "all histories of updates and queries up to the stated depth over several grids",
     "Tests set properties once before asking; staleness needs update-after-query histories.",
     [("updates", GRID + ":set_props, set_prop, set_cell_value, __update_prop"), ("queries", GRID + ":get_prop, get_cells_k, is_homogeneous, is_isotropic"),
      ("memory of answers", HELP + ":_lru_cache")],
     ["property queries and flags after every update"], DIRECT + "Reference: a dictionary of last writes.")

prop("G06", "Asking a grid never changes another answer",
     "The answer to a question about a grid does not depend on which questions were asked before, on this grid or on another grid alive at the same time, nor on simulations run on it.",
     ["histories", "inputs"], "all ordered pairs (triples) of questions with all their option values, several grids, one or two live grids",
     "Every answer is remembered per object; tests ask each question on a fresh object and cannot see interference between answers.",
     [("memory of answers", HELP + ":_lru_cache"), ("queries", GRID + ":get_*"), ("use by models", BO + ":__initialize__, get_cells_trans")],
     ["answers before and after other questions"], DIRECT)

prop("T01", "The transmissibility network is symmetric and exactly the face couplings",
     "Every pair of face-sharing cells has the series (harmonic) combination of its two half cells as transmissibility, the same from both sides, and all other pairs have none. "
     "Per-cell queries, vector and matrix forms, scaled by mobility at the model, agree with each other and follow current grid and fluid properties.",
     ["configurations", "inputs"], "all grid sizes x spacing and permeability patterns per flow axis x boundary on/off x vectorized or not",
     "Tests compare homogeneous cases with printed matrices; wrong couplings between rows or layers vanish in small or uniform grids.",
     [("geometric factors", GRID + ":get_cell_G, get_cells_G, get_cells_G_diag_1/2/3"), ("model transmissibility", BO + ":get_cell_trans, get_cells_trans")],
     ["factors per cell pair, matrices"], DIRECT)

prop("W01", "A well's rate, pressure and productivity satisfy the inflow relation",
     "The equivalent radius and productivity of a well follow from the spacing and permeability of its block, its radius and skin, in every unit system and for every way a well is defined (arguments at once, in pieces, or as a well object). "
     "In every step of every schedule the reported rate equals productivity times the difference of reported well pressure and block pressure.",
     ["configurations", "inputs", "histories"], "every cell x radii x skins x controls x definition styles x units",
     "Tests use one or two textbook wells.",
     [("well geometry", BO + ":__calc_well_G, __calc_well_r_eq"), ("definition", BO + ":set_well; " + WE), ("use", FDM + ":__update_wells, get_matrices_vect")],
     ["well attributes, rates, well pressures"], DIRECT)

prop("E01", "Both assemblers build the cell-by-cell flow balance",
     "For every cell, the equation assembled symbolically and the row assembled in vectorized form are the same linear equation: the discrete balance of flow to neighbours with gravity, wells, boundary conditions and accumulation, in the first and in later steps. "
     "Sparse and dense matrices hold the same numbers.",
     ["configurations", "inputs", "histories"], "grid shapes x property patterns x compressibility x gravity x boundary/well settings x assembler x storage",
     "Tests compare a few printed systems; terms meet in combinations tests do not have.",
     [("symbolic", FDM + ":get_cell_eq, get_matrices_symb"), ("vectorized", FDM + ":get_matrices_vect, __init_A, __init_d")],
     ["matrices and right-hand sides, cell equations"], DIRECT + "Rows compared after scaling by their diagonal.")

prop("S01", "Simulated pressures and rates are the implicit finite-volume solution",
     "After every step of any schedule, pressures of all cells, rates of boundaries and wells, and well pressures equal those of the implicit discretization of slightly compressible (or incompressible) single-phase flow for the given grid, fluid, wells and boundaries.",
     ["configurations", "inputs", "histories"], "grid shapes x property patterns x compressibility x gravity x schedules x assembler x storage, several steps",
     "Tests compare a handful of textbook models after one or a few steps.",
     [("step", FDM + ":solve, get_matrices_vect, get_matrices_symb"), ("wells/boundaries update", FDM + ":__update_wells, __update_boundaries"),
      ("coefficients", BO + ":__calc_RHS, get_cells_trans, set_well, set_boundaries")],
     ["stored pressures, rates and well pressures after each step"], DIRECT + "Lockstep with a reference simulator which decides well controls by exhaustive search.")

prop("S02", "Every step conserves mass, and the balance check reports what is stored",
     "In every step the net inflow through wells and boundaries equals the change of the mass stored in the cells (zero for incompressible systems). "
     "The reported balance error is that of the stored newest step, and a warning is given exactly when it exceeds the threshold.",
     ["configurations", "inputs", "histories"], "grid shapes up to larger sizes x properties x compressibility x schedules with control switches and replaced conditions; tampered rates",
     "Tests rely on the built-in check with its default threshold on few models.",
     [("balance check", FDM + ":check_MB"), ("rates", FDM + ":__update_wells, __update_boundaries, solve")],
     ["stored histories, reported error, warnings"], DIRECT + "Volumes come from the reference grid; only raw histories are used.")

prop("S03", "Wells keep their target rate unless their pressure limit binds",
     "In every step a rate well either flows at its target with a well pressure not below its limit, or sits exactly at its limit with less than its target; it returns to target when the reservoir allows it again. "
     "A pressure well always flows at its pressure; a well without rate and pressure does not flow.",
     ["histories", "inputs", "configurations"], "well positions x targets x limits x boundary schedules over several steps, one to three wells",
     "Switching depends on the history of pressures and on interactions between wells; tests contain at most one switch.",
     [("control switch", FDM + ":__update_wells, solve"), ("terms", FDM + ":__calc_w_term, get_matrices_vect"), ("definition", BO + ":set_well")],
     ["rates, well pressures per step"], DIRECT + "Ties between control choices are skipped and counted.")

prop("S04", "Boundary conditions act exactly as they were defined last",
     "Whatever was defined before, and whenever it is redefined (before or after compiling, between steps), the conditions of the last definition - and only those - act from the next step on, for pressure, rate and gradient conditions in all their spellings and definition styles. "
     "Unknown conditions or cells which are no boundary are refused without any effect.",
     ["histories", "inputs", "configurations"], "every boundary cell x spellings x setters; sequences of definitions x moments",
     "Tests define each boundary once before running.",
     [("definition", BO + ":set_boundary, set_boundaries, set_all_boundaries, __update_boundaries"), ("use", FDM + ":__calc_b_term, get_matrices_vect, __update_boundaries")],
     ["trajectories after redefinitions"], DIRECT)

prop("S05", "The answer does not depend on how a timestep is computed",
     "Sparse or dense storage, vectorized or symbolic assembly, threads, direct or iterative solvers, single steps or runs, printing and balance checking do not change the computed histories (iterative solvers: within their tolerance, or they fail visibly).",
     ["configurations", "inputs", "histories"], "scenarios x every combination of computing options x every available solver",
     "Tests run some options on some models and compare loosely; combinations of options are not crossed.",
     [("options", FDM + ":solve, run"), ("solvers", SLV + ":get_solver, get_isolver"), ("assembly", FDM + ":get_matrices_vect, get_matrices_symb")],
     ["stored histories per option"], DIRECT)

prop("S06", "N steps are N steps, however they are grouped, probed or computed",
     "Any way to split N steps into single steps and runs, with queries, tables and equation prints in between and computing options changed from call to call, gives the same histories, step counters and table lengths as N single steps. "
     "Each solved step is stored exactly once.",
     ["histories", "configurations"], "all groupings of the steps x probe patterns x option patterns",
     "Tests use one grouping and look only at the end.",
     [("bookkeeping", FDM + ":solve, run"), ("stores", SOL + ":__init__, add_w_pressures"), ("tables", BO + ":get_df, get_time")],
     ["histories, step counters, tables"], DIRECT)

prop("S07", "A failed timestep leaves the model as it was and can be repeated",
     "If the linear solver fails at any point of any history - by an exception, by reporting no convergence, or (singular matrix) by an answer which is not a number - the failure is visible, the histories hold exactly the completed steps, and repeating the step gives the history without the failure. The same holds for a compressible model without initial pressure.",
     ["fault_sequences", "histories", "configurations"], "every solver call of the history x fault kinds x 1-2 faults x single steps, runs; steps without solution or start on several grids",
     "Tests never make a solver fail.",
     [("commit of a step", FDM + ":solve, run, __update_wells"), ("solver lookup", SLV + ":get_solver, get_isolver")],
     ["histories after failure and after repetition"], "Faults are enumerated over every solver call of each bounded history on the real code (an injected exception or a nonzero exit code); only linear solver faults are modelled.")

prop("S08", "Definitions and steps may come in any order",
     "For any sequence of steps, well definitions or changes and boundary definitions, every step behaves as defined by the definitions in force at that moment; earlier definitions and earlier steps leave no trace other than the pressures. A definition that is refused leaves no trace at all.",
     ["histories", "inputs"], "all sequences of operations up to the stated depth, then more steps, on several scenarios",
     "Tests define everything first and then run.",
     [("definitions", BO + ":set_well, set_boundaries, set_boundary"), ("coefficients kept between steps", FDM + ":__init_A, __init_d, get_matrices_vect, get_cell_eq"),
      ("bookkeeping", BO + ":__initialize__")],
     ["lockstep with the reference after each step"], DIRECT)

prop("C01", "Threads do not change what a timestep computes, nor hide errors",
     "With threading on, every interleaving of the worker threads gives the same equations, matrices and histories as without threads. "
     "An error in any worker reaches the caller and no partially built system is solved.",
     ["schedules", "fault_sequences"], "all start orders without preemption, every single preemption point (pairs in the thorough tier), every failing cell x start order",
     "Tests run threads free, once, and see one schedule.",
     [("worker pools", FDM + ":get_cells_eq, get_matrices_symb"), ("shared matrices", FDM + ":__update_matrices_symb, __init_A, __init_d")],
     ["matrices and histories per schedule"], "Real worker code runs under a controlled scheduler (one thread at a time; scheduling points at every executed line of the package and of the sparse row code); bound: one preemption in quick, two in thorough for small models.")

prop("I01", "An option which is left out takes its stated default",
     "Every documented optional argument of grids, fluids, wells, models, scalers, solutions, tables, viewers and plots that is left out acts exactly as its stated default value given explicitly, "
     "whichever of the other options are given, by position or by name; a boundary option which defaults to the grid's own behaviour follows it.",
     ["inputs", "configurations"], "grids x questions x every choice of options given or left out x every listed value of the given ones; constructors, compile, solve, run, tables, scalers, viewers and plots alike",
     "Tests fix one spelling of every call; the number of option choices is exponential.",
     [("grid questions", GRID), ("model questions and tables", BO + ":get_df, get_time, get_centers, get_cells_trans, set_well, set_boundaries"),
      ("solutions", MO + ":compile, solve, run; " + FDM + ":solve, run; " + D1P1 + ":run"), ("viewers", PV + ":show_grid, show_model")],
     ["answers with and without the option"], DIRECT + "Differential between two spellings of one call; the explicit values are those of the documented signatures.")

prop("D01", "Tables, times and centers present the stored histories and nothing else",
     "Every table, for every choice and order of columns and options (boundary, units, melt, scaling, dropping), contains exactly the stored pressures, rates, well data, times and dates of the right cell and step under the right label. "
     "Times, dates, centers and scaled values follow from step size, start date, grid and stored ranges.",
     ["inputs", "configurations", "histories"], "several histories x all column lists up to the stated length x all option values",
     "Tests check a few tables by shape or printed value.",
     [("tables", BO + ":get_df, __add_*"), ("time/centers/domain", BO + ":get_time, get_centers, get_domain"), ("scaling", BO + ":set_scalers, update_scalers")],
     ["returned tables and vectors"], DIRECT)

prop("D02", "Scalers map ranges onto ranges and back",
     "Scaling is the affine map which takes the fitted (or given) input range onto the output range, per column or overall as asked; the inverse undoes it; values outside the fitted data follow the same map. "
     "Changing the range or fitting again acts from the next call on, using an unfitted scaler is refused, and the neutral scaler changes nothing.",
     ["inputs", "histories"], "all small matrices over a value alphabet x output ranges x axes; all call sequences up to the stated depth",
     "Tests use one vector.",
     [("affine map", SC + ":fit, transform, inverse_transform, set_output_range"), ("neutral", DUM)],
     ["scaled and unscaled values"], DIRECT)

prop("A01", "The analytical 1D solution solves the diffusion problem",
     "For a homogeneous compressible 1D model with pressure at both ends the analytical solution is the solution of the diffusion equation between the two boundary centers with the given initial and boundary pressures, at every cell and every time, scaled or not. "
     "Running it in one or several runs gives the same history with one row per step. "
     "The diffusivity is that of the grid and fluid properties of the moment, and so is the solution, whatever was asked or computed before.",
     ["inputs", "configurations", "histories"], "all sequences of property updates, runs and questions up to a depth; sizes x spacing x property sets x timesteps x all triples of pressures x run groupings",
     "Tests compare a few values with the numerical solution.",
     [("series", D1P1 + ":calc_solution, run"), ("scaling", BO + ":get_domain, get_alpha, set_scalers")],
     ["stored pressures, returned solution"], DIRECT + "Reference: method of images / late-time series, accuracy 1e-3 and better of the range.")

prop("M01", "Solutions and models do not disturb each other",
     "A history belongs to the solution which computed it: compiling, selecting or stepping another solution of the same model, or another model on the same grid and fluid, never changes it. "
     "Definitions of wells and boundaries belong to one model and act on all its solutions; compiling a method again starts a fresh history.",
     ["histories", "configurations"], "2 models sharing grid and fluid, all sequences of operations up to the stated depth",
     "Tests use one model and one solution at a time.",
     [("selection", MO + ":compile, set_solution; " + COMP + ":__add_solution"), ("histories", SOL + ":__init__, add_w_pressures"), ("shared objects", BO + ":__initialize__, get_init_arrays, w_pressures")],
     ["all histories of both models after each operation"], DIRECT)

prop("M02", "Every documented method name selects that method, every other is refused",
     "For every solution type, method name, spelling and storage option the model gets exactly the named method, under a stable name which selects it again; unknown types, methods or options are refused and leave the current solution in place.",
     ["inputs", "configurations", "histories"], "all documented names x spellings x options x earlier compilation, wrong names, pairs",
     "Tests compile two names.",
     [("lookup", COMP + ":__set_stype, __set_method, __add_solution"), ("selection", MO + ":compile, set_solution, get_solutions")],
     ["selected solution, names, errors"], "The name space is enumerated completely.")

prop("U01", "Units, factors, fluid properties and compressibility are consistent",
     "Unit names and conversion factors of grids, fluids and models are those of the chosen unit system; fluid properties and gravity follow the latest setting; rock and fluid compressibility classify each object and the model (incompressible, slightly compressible) consistently. "
     "Unknown units and negative compressibility are refused without any effect.",
     ["inputs", "histories", "configurations"], "all call sequences up to the stated depth; all compressibility pairs x units",
     "Tests set each property once.",
     [("units", BASE + ":set_units"), ("fluid", FL + ":set_props, set_mu, set_B, set_rho, set_comp"), ("compressibility", BO + ":__calc_comp; reservoirflow/grids/grid.py:set_comp; " + MO + ":set_comp")],
     ["attributes and factors after each call"], DIRECT)

prop("U02", "The same reservoir in any unit system has the same answer",
     "A reservoir described in field, metric or lab units gives the same histories after conversion, including gravity, wells, boundaries and compressibility.",
     ["configurations", "inputs", "histories"], "shapes x properties x compressibility x gravity x schedules x three unit systems",
     "Tests work in field units almost only.",
     [("factors", BASE + ":FACTORS"), ("use of factors", BO + ":__calc_well_G, __calc_RHS; " + GRID + ":get_cell_G; " + FL)],
     ["converted histories"], DIRECT + "Agreement to 1e-3 of the pressure range (digits of the unit factors).")

prop("P01", "The answer does not depend on the orientation of the axes",
     "Exchanging axes or mirroring them, together with everything defined on the grid, exchanges the cells of the answer and changes nothing else. "
     "Depths may count from any datum: shifting all of them by one constant changes nothing.",
     ["configurations", "inputs", "histories"], "all 48 signed permutations of the axes and several datums of depth x shapes x property patterns x schedules",
     "No test relates two orientations; each direction has its own code path.",
     [("per-direction code", GRID + ":get_cells_G_diag_1/2/3, __calc_cells_A"), ("boundary and neighbour order", FDM + ":get_matrices_vect, __calc_b_term")],
     ["histories of transformed models"], DIRECT + "Metamorphic: no reference simulator is used.")

prop("O01", "Messages and reports change nothing and state the values of the moment",
     "Switching messages on or off at any time, printing the matrices of a step, printing reports or the objects themselves changes no answer: wells, boundaries, pressures, rates, "
     "balance error and refusals are those of a silent twin, and messages stay switched as the user left them, also after runs, failed ones included. "
     "What is printed is true at that moment: pressures and rates of the step just made, its matrices of both kinds and their difference, the balance error, the cell and the kind of a well or boundary just set; "
     "reports list every property once with its current value, a single one on request, and say so when there is none of that name.",
     ["histories", "configurations", "inputs"], "grids x compressible or not x dense or sparse x all short sequences of operations, reports and switches; all short sequences of property updates and reports in all formats",
     "Tests run silent models and no test reads a message or report.",
     [("reports", BASE + ":report, __str__, __repr__"), ("messages of steps and matrices", FDM + ":solve, run, check_MB, get_cell_eq, get_matrices_symb"),
      ("messages of models", BO + ":set_well, set_boundaries"), ("messages of grids", GRID + ":get_shape, get_cells_id, set_props"), ("analytical runs", D1P1 + ":run")],
     ["printed text, complete histories, verbose flags"], DIRECT + "A silent twin on which the same operations are done is the reference.")

prop("P02", "Simulated pressures are linear, shift invariant and bounded",
     "With fixed controls the response to a combination of sources is the combination of responses, a common pressure shift shifts everything, and without sources pressures stay within initial and boundary values. "
     "A model at rest stays at rest.",
     ["inputs", "configurations", "histories"], "shapes x properties x all pairs of source patterns x coefficients",
     "Relations between runs; tests check single runs.",
     [("linear system", FDM + ":get_matrices_vect, get_matrices_symb, solve"), ("sources", FDM + ":__calc_b_term, __calc_w_term")],
     ["histories of related models"], DIRECT + "Metamorphic: no reference simulator is used.")

prop("X01", "Profiling decorators do not change the decorated function",
     "A function decorated with any of the profilers or the timer returns, raises, mutates and is called exactly as without; it keeps its name, writes output and files only when asked to, and a failing call does not break later calls.",
     ["histories", "inputs"], "all decorators and options x all sequences of calls (values, keywords, exceptions, mutation)",
     "No test runs a decorated function which fails.",
     [("decorators", PROF + ":cProfiler, lProfiler, profile, timeit")],
     ["results, exceptions, calls, printed text, files"], DIRECT)

prop("V01", "The viewer and animations show the stored values of the step they name",
     "Every picture, slider position and animation frame of a model shows, at the place of every cell, the stored value of the chosen property "
     "(pressures or rates, with or without boundaries) at one step, with color limits of the whole history; the date, the step number and the "
     "average, minimum and maximum written beside it are those of that step; a first picture shows the last step, a slider covers all steps, an animation has one frame per step in order. "
     "Wells stand in their cells with their radius. Labels of a grid state the property of the cell at which they stand. "
     "Drawing changes nothing, in whatever order views, tables and timesteps follow; unknown properties and labels are refused.",
     ["histories", "inputs", "configurations"], "grids x labels; histories x properties x boundary x display modes x all short sequences of slider positions and of views and steps",
     "No test calls show() or save_gif().",
     [("viewer", PV + ":show_grid, show_model, save_gif"), ("values and limits", PV + ":get_model_values, get_limits_fmt"), ("labels", PV + ":add_grid_labels"), ("wells", PV + ":add_wells")],
     ["what is given to the renderer: meshes, scalars, color limits, texts, labels, slider callbacks, frames"],
     DIRECT + "The real viewer library builds meshes, mappers, texts and sliders; only rendering (no graphics in the sandbox) and GIF encoding are recording stand-ins.")

prop("V02", "Plots show the stored values of the cell or step they name",
     "A plot of a cell shows the stored pressures or rates of that cell, one point per step at the time of the step; a plot of a step shows the stored value of every cell of the grid "
     "at that step (the last one when none is named), at the places which are labeled with the cells; a grid plot shows the cells without boundaries in order, each under its own label. "
     "Plots belong to the selected solution as it is when they are asked for, change nothing, and are refused for models without a solution and for unknown properties.",
     ["histories", "inputs"], "histories x properties x every cell and step; all short sequences of plots, timesteps and selections of a solution",
     "No test calls plot() or plot_grid().",
     [("plots", BO + ":plot, plot_grid")],
     ["points, images, ticks and limits of the drawn axes"],
     DIRECT + "Figures are real matplotlib figures; only the window is a stand-in.")

EX = "explicit-state model checking of the implementation"
TECH = {
    "G01": EX + ": exhaustive bounded configurations against a reference grid",
    "G02": EX + ": exhaustive bounded configurations against a reference grid",
    "G03": EX + ": exhaustive bounded configurations and layouts",
    "G04": EX + ": exhaustive bounded configurations against a reference geometry",
    "G05": EX + ": all update/query histories up to a depth in lockstep with a last-write model",
    "G06": EX + ": all ordered question pairs/triples (history independence)",
    "V01": EX + ": all slider sequences, frames and view/step orders against the stored histories",
    "V02": EX + ": all plots of bounded histories and all plot/operation orders against the stored histories",
    "T01": EX + ": exhaustive bounded configurations against a reference network",
    "W01": EX + ": exhaustive bounded definitions against a reference well model",
    "E01": EX + ": exhaustive bounded systems against a reference assembly",
    "S01": EX + ": bounded trajectories in lockstep with a reference simulator",
    "S02": EX + ": invariant over all states of bounded histories, tampered states",
    "S03": EX + ": all control/limit/schedule combinations, reference decided by exhaustive mode search",
    "S04": EX + ": all definition sequences up to a depth in lockstep with a reference simulator",
    "S05": EX + ": complete product of computing options, differential against a reference trajectory",
    "S06": EX + ": all step groupings and probe patterns",
    "S07": EX + ": exhaustive fault injection at every solver call of bounded histories",
    "S08": EX + ": all operation sequences up to a depth in lockstep with a reference simulator",
    "C01": "stateless model checking: controlled scheduler over real threads, preemption-bounded exhaustive exploration",
    "I01": EX + ": complete enumeration of given/omitted option choices, differential",
    "D01": EX + ": all column lists and options up to a length over bounded histories",
    "D02": EX + ": all small inputs and call sequences against an affine model",
    "A01": EX + ": exhaustive bounded configurations against the method of images",
    "M01": EX + ": all operation sequences of two models up to a depth",
    "M02": EX + ": complete enumeration of the name space",
    "U01": EX + ": all call sequences up to a depth against a property model",
    "U02": EX + ": bounded trajectories, three unit systems in lockstep",
    "P01": EX + ": all 48 axis symmetries of bounded trajectories",
    "P02": EX + ": all combinations of bounded source patterns (metamorphic)",
    "O01": EX + ": all sequences of operations, reports and switches up to a depth in lockstep with a silent twin",
    "X01": EX + ": all call sequences up to a depth, decorated and undecorated in lockstep",
}
