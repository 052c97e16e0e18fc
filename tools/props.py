"""The properties, in the words of properties.jsonl, and how each is decided (MANIFEST.json)."""


def A(files, mech, observe=None, hook=None):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [], "hook_needed": hook}


NOTES = ("Every check launches the real code in its own processes, observes it through wrappers and recorded traces made by "
         "the harness (no change to /repo is needed for that, so there are no hooks) and decides with an oracle that does "
         "not use the code it judges.")
NOT_APPLICABLE = []
PROPS = []

PROPS.append(dict(
    id="C01", title="Edge exchange delivers each neighbour's values in the receiver's own frame",
    statement="After a boundary exchange, every process holds for each of its four edges exactly the values its neighbour "
    "has at the same physical points: scalars unchanged, and covariant or contravariant vectors re-expressed in the "
    "receiver's own local coordinates so that they describe the same physical vector. This holds for every number of "
    "processes (6 n²), every panel edge, any trailing shape, precision or complex type, blocking or overlapped use, and "
    "several exchanges in flight, and the sender's arrays are left untouched.",
    quantifier={"over": ["inputs", "configurations", "schedules"],
                "text": "all process counts 6n², all 24 panel edges and inner tile edges, all field shapes and dtypes, any "
                        "interleaving of start/wait of several exchanges, delayed processes"},
    why_tests_cant="Tests exchange a few smooth fields on 6 or 24 processes and compare with small tolerances at a few sizes; "
                   "they do not cover all edges with arbitrary vectors, complex data, or interleaved requests.",
    anchors=A(["wx_factory/process_topology.py", "wx_factory/geometry/cubed_sphere_2d.py"],
              [("neighbour and rotation tables", "ProcessTopology.__init__"), ("start_exchange_scalars / start_exchange_vectors", "wx_factory/process_topology.py"),
               ("deferred completion", "ExchangeRequest.wait")], ["results of the exchange on every process"]),
    technique="runtime monitoring: every delivered edge value compared online with an independent 3-D cube geometry oracle",
    level_note="Held on the exchanges observed (all edges at 6, 24, 54 processes [96 thorough], random data, adversarial "
               "ordering and delays). Trusts mpi4py and the harness's own gnomonic geometry.",
))

PROPS.append(dict(
    id="C02", title="Gather and distribute are exact inverses that follow the grid layout",
    statement="Collecting a distributed field on one process yields, for each cube panel, the tiles placed at their own grid "
    "position, and distributing a global field gives every process exactly its own tile; doing one after the other gives "
    "back the same bits. This holds for any number of processes, any number of leading and trailing dimensions and any element "
    "type, and neither operation changes its input.",
    quantifier={"over": ["inputs", "configurations"],
                "text": "all process counts 6n², array ranks, trailing shapes, dtypes; any communicator the processes were given in"},
    why_tests_cant="Tests round-trip a few arrays; a consistently transposed or mirrored layout round-trips too and is only seen "
                   "against the grid's own coordinates.",
    anchors=A(["wx_factory/process_topology.py"], [("gather_cube, gather_panel, distribute_cube", "ProcessTopology")],
              ["gathered global arrays", "distributed tiles"]),
    technique="runtime monitoring: gathered/distributed arrays checked element by element against uniquely tagged values",
    level_note="Held on the observed arrays (6, 24, 54 processes; unique tags per point). Trusts the harness's tile numbering, "
               "which is cross-checked against the grid coordinates of the same run.",
))

PROPS.append(dict(
    id="C03", title="Results do not depend on the number of processes",
    statement="The same experiment on a cubed sphere gives the same initial state, the same tendencies for any real or complex "
    "state, the same state after every time step and the same printed global statistics, whatever admissible number of "
    "processes it is spread over. Differences are limited to floating-point rounding (and to the convergence tolerance for "
    "iterative integrators).",
    quantifier={"over": ["configurations", "inputs", "histories"],
                "text": "all process counts 6n² dividing the grid, all equations, time integrators, exponential solvers, grid rotations and states"},
    why_tests_cant="Tests compare single operators or a couple of configurations on fixed process counts; none runs the same "
                   "experiment on two decompositions and compares complete states.",
    anchors=A(["wx_factory/process_topology.py", "wx_factory/rhs/rhs.py", "wx_factory/solvers/", "wx_factory/integrators/",
               "wx_factory/solvers/global_operations.py", "wx_factory/simulation/simulation.py"],
              [("tile layout and exchanges", "ProcessTopology"), ("global reductions", "wx_factory/solvers/global_operations.py"),
               ("right-hand side", "wx_factory/rhs")], ["states and tendencies assembled in global order", "printed statistics"]),
    technique="differential runtime monitoring: the same run on 6, 24 (and 54) processes, traces compared field by field",
    level_note="Held on the listed experiments. The harness assembles global fields itself; 6-process runs are the reference.",
))

PROPS.append(dict(
    id="C04", title="A checkpoint is the exact state, and a restart continues exactly",
    statement="A saved state file holds, bit for bit, the model state of the step named in its file name together with the complete "
    "configuration of the run, and loading it gives both back, for any array type, shape or special value. A run restarted from a "
    "checkpoint, on the same or another admissible number of processes, starts from that step and that state and produces the "
    "same later states as the run that was never interrupted (bit for bit for one-step explicit integrators on the same number of "
    "processes).",
    quantifier={"over": ["histories", "inputs", "configurations", "crash_points"],
                "text": "all equations, integrators, restart steps, process counts before and after, array contents"},
    why_tests_cant="One test saves and reloads one array; no test interrupts a run at an arbitrary step and compares the continuation "
                   "with the uninterrupted one, or changes the number of processes.",
    anchors=A(["wx_factory/output/state.py", "wx_factory/output/output_manager.py", "wx_factory/simulation/simulation.py"],
              [("save_state / load_state", "wx_factory/output/state.py"), ("state file naming and gathering", "OutputManager"),
               ("starting state", "Simulation")], ["checkpoint files", "states of every step of the restarted run"]),
    technique="runtime monitoring: recorded step-by-step state trace of real interrupted and uninterrupted runs, compared bitwise; file round trips",
    level_note="Held on the runs observed (SW, 3-D Euler, Cartesian; explicit and one-step exponential/Rosenbrock integrators; 1, 6, 24 processes).",
))

PROPS.append(dict(
    id="C05", title="A missing or damaged checkpoint never gives a wrong or split start",
    statement="When the checkpoint asked for is missing, truncated at any byte, corrupted in its header, of the wrong shape or not a "
    "checkpoint at all, every process of the run takes the same decision: all of them begin from the initial condition at step "
    "zero and the run goes on. No process hangs, crashes, or starts from other data than its peers.",
    quantifier={"over": ["crash_points", "fault_sequences", "configurations"],
                "text": "every truncation point and damage of the checkpoint file, all process counts"},
    why_tests_cant="No test offers a damaged checkpoint; the agreement between processes only shows with several of them.",
    anchors=A(["wx_factory/simulation/simulation.py", "wx_factory/output/state.py"],
              [("choice of the starting state", "Simulation._adjust_num_elements / _determine_starting_state"), ("load_state", "wx_factory/output/state.py")],
              ["starting step and state on every process", "one further time step"]),
    technique="fault injection with a runtime monitor: damaged files offered to real restarts, decisions of all processes compared",
    level_note="Held on the damages tried (enumerated and random cut points, header damage, wrong shapes) on 1, 6, 24 processes. A "
               "damage inside the numbers themselves is not detectable (no checksum in the format) and not claimed.",
))

PROPS.append(dict(
    id="C06", title="A run covers exactly the requested time, with outputs at the requested steps",
    statement="A run advances from its starting step to exactly t_end: every step has the requested length except a shorter last one "
    "when t_end is not a multiple of dt, and no step is lost or added by rounding. Field output, checkpoints and statistics "
    "appear exactly at the steps that are multiples of their own frequency (step zero included), labelled with the right step and time, "
    "also after a restart.",
    quantifier={"over": ["inputs", "histories", "configurations"],
                "text": "all dt, t_end (including values not representable in binary), starting steps and frequencies"},
    why_tests_cant="Tests run a few steps with friendly numbers; miscounts need particular decimal values, restarts or frequencies.",
    anchors=A(["wx_factory/simulation/simulation.py", "wx_factory/output/output_manager.py", "wx_factory/output/output_cubesphere_netcdf.py"],
              [("time loop", "Simulation.run / step"), ("output cadence", "OutputManager.step")],
              ["step lengths passed to the integrator", "files and netCDF records", "statistics blocks"]),
    technique="runtime monitoring: online recorder of step lengths, clock and produced files checked against exact decimal arithmetic",
    level_note="Held on the generated schedules (several hundred). The state is put back after each real step in most cases so that any step length can be used.",
))

PROPS.append(dict(
    id="C07", title="Observing a run never changes it",
    statement="Switching on or off any combination of field output, checkpoints, block statistics, solver statistics or verbose messages, "
    "at any frequency, leaves every state of the run unchanged bit for bit, and no output call modifies the model state it is given.",
    quantifier={"over": ["configurations", "histories"],
                "text": "all combinations and frequencies of outputs, equations, integrators, process counts"},
    why_tests_cant="Tests run with output either on or off and compare with loose references; none compares both trajectories.",
    anchors=A(["wx_factory/output/", "wx_factory/simulation/simulation.py"],
              [("OutputManager.step", "wx_factory/output/output_manager.py"), ("diagnostics", "wx_factory/output/diagnostic.py"),
               ("block statistics", "OutputManager / Output.__blockstats__")], ["state around every output call", "state after each step"]),
    technique="differential runtime monitoring: same experiment with and without outputs, bitwise trace comparison, plus before/after state hash at every output call",
    level_note="Held on the experiments and output combinations listed, 1, 6 and 24 processes.",
))

PROPS.append(dict(
    id="C08", title="A NaN anywhere stops all processes at that step, before anything is written",
    statement="If the state of any single process contains a NaN after a time step, every process of the run stops with an error in "
    "that same step, and no checkpoint, field output or statistics of the invalid state are produced. A run whose states are all finite is never stopped.",
    quantifier={"over": ["fault_sequences", "inputs", "configurations"],
                "text": "any process, step, variable and grid point; any number of processes"},
    why_tests_cant="No test makes one process out of several fail; the agreement of the others needs fault injection at arbitrary ranks and steps.",
    anchors=A(["wx_factory/simulation/simulation.py"], [("NaN check and collective stop", "Simulation.step")],
              ["exception and step on each process", "output calls and files"]),
    technique="fault injection with a runtime monitor: NaN planted at a chosen rank/step/point of real runs, reaction of all processes observed",
    level_note="Held on the injections observed (each rank in turn at 6 processes, random at 24 and on Cartesian runs).",
))

PROPS.append(dict(
    id="C09", title="Box Euler tendencies are those of the governing equations in a closed box",
    statement="For any two-dimensional state in the Cartesian box, the computed tendencies are those of the compressible Euler equations "
    "with gravity and closed walls, discretised on each element's Gauss points with upwinded fluxes between elements: they converge to "
    "the exact tendencies for smooth flows at the expected order, give the same result in real and complex arithmetic, and never change the total mass or total "
    "potential-temperature content, neither per evaluation nor over a run.",
    quantifier={"over": ["inputs", "configurations", "histories"],
                "text": "all states (subsonic, supersonic, at rest, complex), domains, element counts and orders"},
    why_tests_cant="Tests only compare a few runs with stored results at loose tolerance and one configuration; rough, supersonic or complex states are never evaluated.",
    anchors=A(["wx_factory/rhs/rhs_dfr.py", "wx_factory/pde/pde_euler_cartesian.py", "wx_factory/pde/kernels/", "wx_factory/pde/interface.cpp"],
              [("tendencies", "RHSDirecFluxReconstruction"), ("compiled fluxes", "wx_factory/pde/kernels/")], ["tendencies", "integrals over runs"]),
    technique="runtime monitoring: each observed tendency compared with an independent model and with exact tendencies; conservation monitor on runs",
    level_note="Held on the generated states (10 domains x 12 states quick). Trusts the harness's own model of the scheme.",
))

PROPS.append(dict(
    id="C10", title="Mass and potential temperature are conserved on the whole sphere",
    statement="For any state, real or complex, the globally integrated tendency of mass (and, for three-dimensional atmospheres, of potential temperature content) "
    "is zero to rounding, across element, tile and panel boundaries, over terrain, between closed bottom and lid, for shallow and deep geometries. Consequently every time integrator keeps the global "
    "mass (and potential temperature content) constant to rounding through a run, whatever its accuracy tolerance.",
    quantifier={"over": ["inputs", "configurations", "histories"],
                "text": "all states, grid rotations, terrains, process counts, depths of the atmosphere and time integrators"},
    why_tests_cant="No test integrates anything over the sphere; a flux that is not shared exactly by two panels is invisible in short smooth runs.",
    anchors=A(["wx_factory/rhs/rhs_sw.py", "wx_factory/rhs/rhs_dfr.py", "wx_factory/pde/fluxes.py", "wx_factory/geometry/metric2d.py", "wx_factory/geometry/metric3d.py",
               "wx_factory/process_topology.py"],
              [("common fluxes", "wx_factory/pde/fluxes.py, wx_factory/rhs/rhs_sw.py"), ("volume element", "Metric2D / Metric3DTopo")],
              ["global integrals of tendencies and of states after each step"]),
    technique="runtime monitoring: conservation monitor with independent area/volume weights over tendencies of random states and over real runs",
    level_note="Held on the states and runs observed (SW and 3-D Euler, terrain, 6 and 24 processes).",
))

PROPS.append(dict(
    id="C11", title="Shallow-water tendencies are those of the governing equations on the sphere",
    statement="For any shallow-water state on the rotated cubed sphere, with or without topography, the computed tendencies are those of the rotating shallow-water equations "
    "discretised with direct flux reconstruction and upwinded interface fluxes: they converge to the exact tendencies of smooth flows at the expected "
    "order at every point of every panel, coincide point by point with that scheme for arbitrary rough, supercritical or complex states, and vanish with resolution for balanced flow.",
    quantifier={"over": ["inputs", "configurations"], "text": "all states, resolutions, orders, grid rotations, topography, process counts"},
    why_tests_cant="Tests compare a few runs with stored numbers; they cannot tell a wrong metric, Coriolis or upwinding term that acts on some panels, rotations or states only.",
    anchors=A(["wx_factory/rhs/rhs_sw.py", "wx_factory/geometry/metric2d.py", "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/operators.py"],
              [("tendencies", "RHSShallowWater"), ("metric and Christoffel symbols", "Metric2D")], ["tendencies of every point"]),
    technique="runtime monitoring: observed tendencies compared with an independent global model and with exact tendencies from vector calculus in space",
    level_note="Held on the generated states and grids. Trusts the harness's own geometry and scheme model.",
))

PROPS.append(dict(
    id="C12", title="3-D Euler tendencies are those of the governing equations on the sphere",
    statement="For any three-dimensional compressible state on the rotated cubed sphere, the computed tendencies are those of the rotating Euler equations with gravity, rigid bottom "
    "and lid, in the shallow or the deep-atmosphere geometry, over flat ground or terrain: they converge to the exact tendencies of smooth flows at the expected order at every "
    "point, and for arbitrary rough states over flat ground they coincide with the direct-flux-reconstruction scheme with Rusanov interface fluxes.",
    quantifier={"over": ["inputs", "configurations"], "text": "all states, resolutions, orders, grid rotations, planet sizes, depths, terrains, process counts"},
    why_tests_cant="Tests compare a few short runs with stored numbers; wrong metric, Coriolis, terrain or dissipation terms only show for particular flows, panels, rotations or terrains.",
    anchors=A(["wx_factory/rhs/rhs_dfr.py", "wx_factory/pde/pde_euler_cubesphere.py", "wx_factory/pde/fluxes.py", "wx_factory/geometry/metric3d.py", "wx_factory/geometry/cubed_sphere_3d.py"],
              [("tendencies", "RHSDirecFluxReconstruction_mpi"), ("interface fluxes", "wx_factory/pde/fluxes.py"), ("metric, Christoffel symbols", "Metric3DTopo")],
              ["tendencies of every point"]),
    technique="runtime monitoring: observed tendencies compared with exact tendencies from vector calculus in space and with an independent global model",
    level_note="Held on the generated flows, terrains and rough states. Rough states over terrain are only covered by the conservation and decomposition properties.",
))

PROPS.append(dict(
    id="C13", title="Exponential solvers return the phi-function combination within tolerance",
    statement="For any linear operator, any input vectors and any increasing output times, each exponential (Krylov) solver returns at every output time the combination of phi functions of "
    "the operator applied to the input vectors, within the requested tolerance, and leaves its inputs untouched. This holds however many substeps, restarts of the subspace or "
    "early invariant subspaces it goes through, and on any number of processes sharing the vectors equally.",
    quantifier={"over": ["inputs", "configurations"], "text": "operators (dissipative, oscillatory, advective, diffusive, low rank, zero), vectors, scales, tolerances, output times, subspace limits, process counts"},
    why_tests_cant="The tests call one or two solvers on one matrix; errors appear only with several substeps, several output times, breakdown or several processes.",
    anchors=A(["wx_factory/solvers/kiops.py", "wx_factory/solvers/pmex.py", "wx_factory/solvers/pmex_1s.py", "wx_factory/solvers/cwy_ne.py", "wx_factory/solvers/icwy_1s.py", "wx_factory/solvers/kiops_nest.py"],
              [("substepping and projection", "wx_factory/solvers/*.py")], ["vectors returned by each solver call"]),
    technique="runtime monitoring: every observed solver result compared with a dense matrix exponential of the augmented system",
    level_note="Held on the generated calls. kiops and kiops_nest are exercised with stiff operators too; the other solvers only on mild ones, and four recorded inputs fail (known-findings.jsonl).",
))

PROPS.append(dict(
    id="C14", title="Tendencies depend on the state alone, and solvers get their true derivative",
    statement="The tendency of a state depends only on the values of that state: not on earlier evaluations (real or complex, of this or another model), not on the memory layout of "
    "the array, and evaluating it changes neither the state nor results handed out before. The Jacobian-vector products handed to the implicit and exponential solvers, "
    "by complex step or by finite differences, equal the derivative of that tendency in the given direction.",
    quantifier={"over": ["inputs", "histories", "configurations"],
                "text": "any sequence of evaluations of shallow-water, spherical and box Euler models, real or complex, any memory layout, direction and scale, process count"},
    why_tests_cant="Tests evaluate each model once from its initial state; reused buffers, layouts and complex evaluations only matter in long mixed histories.",
    anchors=A(["wx_factory/rhs/rhs.py", "wx_factory/rhs/rhs_dfr.py", "wx_factory/rhs/rhs_sw.py", "wx_factory/solvers/matvec.py", "wx_factory/pde/fluxes.py"],
              [("tendency evaluation", "RHS.__call__"), ("Jacobian-vector products", "wx_factory/solvers/matvec.py")],
              ["tendencies of a call history", "Jacobian-vector products"]),
    technique="runtime monitoring: recorded call histories of the real tendencies compared bit for bit with fresh models; products compared with extrapolated centred differences",
    level_note="Held on the histories observed (three models, 1 to 24 processes). Directions across the kinks of the upwinding are avoided.",
))

PROPS.append(dict(
    id="C15", title="Every time integrator advances its equations at its own order of accuracy",
    statement="For any smooth non-linear system of equations, every time integrator converges to the exact solution at its nominal order of accuracy, from the first step on, also "
    "when the step size changes during the run and with any number of processes, and leaves the state it is given untouched. Exponential integrators are exact, within "
    "their tolerance, for linear systems whatever the step size, and equilibria stay at rest.",
    quantifier={"over": ["inputs", "histories", "configurations"],
                "text": "systems, initial states, step sizes and their changes, solvers and tolerances, array shapes, process counts"},
    why_tests_cant="Tests compare a few steps of few integrators with stored values; a lower order of accuracy, start-up or a step-size change is invisible there.",
    anchors=A(["wx_factory/integrators/"], [("integrators", "wx_factory/integrators/*.py"), ("start-up and history", "Epi.__step__, Bdf2, EpiStiff")],
              ["state after every step"]),
    technique="runtime monitoring: trajectories of the real integrators compared with reference trajectories of another code, convergence-order oracle",
    level_note="Held on the generated systems. Equilibria of the partitioned and split methods, and exactness of the Rosenbrock-exponential variants, are not claimed.",
))

PROPS.append(dict(
    id="C16", title="Adaptive Runge-Kutta integration respects order, tolerance and interval",
    statement="For any smooth time-dependent system, each adaptive Runge-Kutta method attains its declared order in a single step, keeps the error within what the "
    "tolerance promises, and ends exactly at the requested time. It evaluates the derivative only at times inside the step under way, all processes take the same steps, and a "
    "system that blows up or yields invalid values ends as failed instead of being reported as finished.",
    quantifier={"over": ["inputs", "configurations"], "text": "methods, systems, intervals, tolerances, step controllers, first steps, process counts"},
    why_tests_cant="Only one pair is run once on one autonomous problem; wrong coefficients, wrong stage times and disagreement between processes do not show there.",
    anchors=A(["wx_factory/integrators/explicit_runge_kutta.py", "wx_factory/integrators/butcher.py", "wx_factory/solvers/exode.py"],
              [("step control", "ExplicitRungeKutta"), ("coefficients", "wx_factory/integrators/butcher.py")], ["times and states of every derivative evaluation and accepted step"]),
    technique="runtime monitoring: trace of every derivative evaluation and accepted step checked online; end states compared with a reference integration",
    level_note="Held on the generated systems; the error bound is a multiple of the tolerance calibrated with a wide margin.",
))

PROPS.append(dict(
    id="C17", title="Linear and non-linear solvers report truthfully what they return",
    statement="For any system and right-hand side, the linear and Newton-Krylov solvers report the true residual of the vector they return, report convergence only when "
    "that residual meets the requested tolerance, and do converge on well-posed systems given enough iterations. All processes receive the same verdict, "
    "inputs are left untouched, and an exact or zero initial residual is handled.",
    quantifier={"over": ["inputs", "configurations"], "text": "operators, right-hand sides, scales, initial guesses, tolerances, restarts, limits, preconditioners, process counts"},
    why_tests_cant="Tests solve two or three small systems on one process; early convergence, stagnation, exhausted iterations and unequal processes are never met.",
    anchors=A(["wx_factory/solvers/fgmres.py", "wx_factory/solvers/gcrot.py", "wx_factory/solvers/nonlin.py", "wx_factory/solvers/global_operations.py"],
              [("linear solvers", "fgmres, gcrot"), ("Newton-Krylov", "wx_factory/solvers/nonlin.py")], ["returned vectors, residuals, flags and iteration histories"]),
    technique="runtime monitoring: residuals of every observed result recomputed by the harness and compared with what the solver reported",
    level_note="Held on the generated systems. The gcrot solver on several processes is a recorded finding.",
))

PROPS.append(dict(
    id="C18", title="Compiled kernels stay within their arrays and fill them completely",
    statement="For any grid shape, order, number type and physical state, the compiled flux kernels read and write only the memory of the arrays they are given, leave their inputs unchanged, write every "
    "output value they own, execute no undefined behaviour, and give the values of the equations they implement.",
    quantifier={"over": ["inputs", "configurations"], "text": "element counts in each direction (1 upwards, rectangular), points per element, real or complex numbers, all states"},
    why_tests_cant="The kernels run in tests on few square grids without any memory checking; an off-by-one or an unwritten corner goes unnoticed.",
    anchors=A(["wx_factory/pde/kernels/", "wx_factory/pde/interface.cpp", "wx_factory/compiler/compile_kernels.py"],
              [("kernels", "wx_factory/pde/kernels/*.cpp, *.hpp"), ("Python interface", "wx_factory/pde/interface.cpp")], ["sanitizer reports", "guard bands", "output values"]),
    technique="AddressSanitizer and UndefinedBehaviorSanitizer build of the kernels plus guard-band and value monitors on randomised calls and real runs",
    level_note="Held on the calls observed. Only the CPU build is exercised (no GPU here); grids beyond 2^31 values are not.",
))

PROPS.append(dict(
    id="C19", title="Configurations are accepted iff they satisfy the schema, with exact values",
    statement="A configuration is accepted exactly when every option its schema requires is present and every option has the declared type, lies in the declared range and is one of the declared choices; "
    "otherwise it is refused with a configuration error and never hangs or crashes otherwise. An accepted configuration carries exactly the values written, or the documented "
    "defaults, with conditional options read only when their condition holds and angles exact to their fixed-point resolution.",
    quantifier={"over": ["inputs", "configurations"], "text": "all configuration texts and all well-formed schemas; all angles and schema expressions"},
    why_tests_cant="Tests read a handful of valid files and a few invalid ones; the option-by-option space of wrong types, ranges and conditions is unbounded.",
    anchors=A(["wx_factory/common/configuration.py", "wx_factory/common/configuration_schema.py", "wx_factory/common/angle24.py", "wx_factory/common/eval_expr.py", "config/config-format.json"],
              [("validation", "Configuration, ConfigurationSchema"), ("angles", "angle24"), ("expressions", "eval_expr")], ["acceptance and option values"]),
    technique="runtime monitoring: mutated configuration texts read by the real reader, verdict and values compared with an independent reading of the schema",
    level_note="Held on the generated texts. Conditions on an option that is itself inactive are left out.",
))

PROPS.append(dict(
    id="C20", title="Work delegated to one process runs once and fails for everyone",
    statement="Work that one process does on behalf of a group runs exactly once, its result reaches every process of the group unchanged, and if it fails, for any reason, every process "
    "of the group gets an error and none is left waiting. Likewise a simulation that cannot start (missing or invalid configuration, unsuitable number of processes) stops "
    "on all processes with an error instead of hanging or starting on some of them.",
    quantifier={"over": ["schedules", "fault_sequences", "inputs"], "text": "groups, delegates, values, failures, arrival delays, nesting; process counts and configurations at start-up"},
    why_tests_cant="Tests cover two or three fixed blocks on a fixed number of processes; delays, failure kinds and sub-groups are not varied.",
    anchors=A(["wx_factory/wx_mpi.py", "wx_factory/simulation/simulation.py", "wx_factory/process_topology.py"],
              [("delegation", "SingleProcess, Conditional, do_once"), ("start-up", "Simulation.__init__, ProcessTopology")], ["execution logs, values and exceptions of every process"]),
    technique="fault and delay injection with an offline checker over the gathered execution logs (exactly-once, agreement) and a hang watchdog",
    level_note="Held on the schedules observed. The variant for several delegates is not used by the model and not claimed.",
))

PROPS.append(dict(
    id="C21", title="Filters and sponge act exactly as configured, once per step",
    statement="When a modal filter or a sponge layer is configured, each step's result is replaced exactly once by its filtered version with the configured kind, order, cutoff, strength, layer depth and time scale, "
    "and the state that the next step, checkpoint or output sees is the filtered one; a filter on the derivatives acts on every tendency. Filters keep the mean of every element, "
    "the sponge damps vertical momentum only and only near the lid, and without filters nothing is altered.",
    quantifier={"over": ["configurations", "inputs", "histories"], "text": "filter kinds and parameters, orders, grids, states, numbers of steps and processes"},
    why_tests_cant="No test runs with a filter and looks at what it did; a filter applied twice, never, or to the wrong modes leaves runs plausible.",
    anchors=A(["wx_factory/geometry/operators.py", "wx_factory/init/dcmip.py", "wx_factory/simulation/simulation.py", "wx_factory/integrators/integrator.py"],
              [("filters", "DFROperators"), ("sponge", "wx_factory/geometry/operators.py"), ("application after each step", "Simulation.step")], ["states before and after every step", "filtered tendencies"]),
    technique="runtime monitoring: trace of the states entering and leaving every step of real runs checked against an independent modal computation",
    level_note="Held on the runs observed.",
))

PROPS.append(dict(
    id="C22", title="Output files and printed statistics describe the state, in physical units",
    statement="Every record of an output file holds, at the true position and time, the height, zonal, meridional and vertical wind, vorticity, potential vorticity, density, potential temperature and pressure "
    "of the state handed to it, in physical units, with the true ground and elevations; printed statistics (global mass, energy, enstrophy, error norms, extremes, means) are those of that state. "
    "This holds for every test case, resolution, grid rotation, atmosphere depth and number of processes, and for arbitrary states.",
    quantifier={"over": ["inputs", "configurations", "histories"], "text": "states, test cases, orders, resolutions, rotations, depths, terrains, process counts, sequences of records"},
    why_tests_cant="No test opens an output file; a wrong factor, sign, panel order or time leaves runs unaffected and plots plausible.",
    anchors=A(["wx_factory/output/output_cubesphere_netcdf.py", "wx_factory/output/output_cubesphere.py", "wx_factory/output/output_cartesian.py", "wx_factory/output/diagnostic.py", "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py"],
              [("netCDF output", "OutputCubesphereNetcdf"), ("diagnostics", "wx_factory/output/diagnostic.py"), ("statistics", "Output*.__blockstats__"), ("wind conversion", "contra2wind, contra2wind_3d")],
              ["finished netCDF files", "standard output", "states handed to the output layer"]),
    technique="runtime monitoring: every state handed to the output layer is recorded and the finished files and printed numbers are checked offline against an independent geometry",
    level_note="Held on the records observed (6, 24 [54 thorough] processes). Vertical wind over terrain is checked over smooth ground only.",
))

PROPS.append(dict(
    id="C23", title="Initial states are the published test cases, on any grid",
    statement="A simulation starts from the state the chosen published test case prescribes (Williamson 2, 5, 6; DCMIP 2-1, 2-2, 3-1; acoustic wave; warm bubble): at every grid point height or density, "
    "potential temperature, wind and ground elevation are those of the case's formulas at the point's true position, on the planet of the right size and rotation. This holds for every resolution, order, rotation "
    "of the grid, lid, depth and number of processes.",
    quantifier={"over": ["configurations"], "text": "all grids, rotations, orders, lids, domains and process counts"},
    why_tests_cant="Tests only compare runs with each other; an initial state that is wrong everywhere in the same way, or on one panel of a rotated grid, is never noticed.",
    anchors=A(["wx_factory/init/initialize.py", "wx_factory/init/dcmip.py", "wx_factory/init/shallow_water_test.py", "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py"],
              [("initial states", "initialize_sw, initialize_euler, initialize_cartesian2d"), ("wind conversion", "wind2contra")], ["initial state and ground of every process"]),
    technique="runtime monitoring: the initial state of real simulations recorded on every process and compared point by point with independent formulas and geometry",
    level_note="Held on the grids observed. The vertical wind of DCMIP 2-1 and 2-2 over the mountain is a recorded finding.",
))

PROPS.append(dict(
    id="C24", title="The solver statistics database records every step of every run truthfully",
    statement="With solver statistics on, the database gets exactly one row per completed step, under a run number no other run shares, with the settings of the run, the start and length of the step, "
    "the iterations, verdict and residual history its solver reported, and one timing per tendency evaluation of that step. Rows of earlier or concurrent runs in the same file are never changed, also when the file was made by an "
    "older version, and a file that cannot be used stops all processes with an error. Recorded total run times are added one per run.",
    quantifier={"over": ["histories", "configurations", "fault_sequences"],
                "text": "any sequence or interleaving of runs sharing a file, integrators, solvers, restarts, process counts; unusable, damaged or locked files"},
    why_tests_cant="No test reads the database; misplaced, repeated or missing rows need several steps and several runs to show, a hang needs several processes.",
    anchors=A(["wx_factory/output/solver_stats.py", "wx_factory/output/output_manager.py", "wx_factory/integrators/integrator.py"],
              [("database writer", "SolverStatsOutput"), ("collection of the statistics", "Integrator.step, SolverInfo"), ("tendency timings", "RHS.retrieve_last_times")],
              ["database rows", "values returned by the solvers", "tendency evaluations"]),
    technique="runtime monitoring: solver results, step times and tendency evaluations recorded by the harness, offline checker over the finished database; unusable files injected",
    level_note="Held on the runs observed (1, 6, 24 processes). Iteration counts of integrators that report none (start-up steps of multistep methods, srerk, stiff EPI) are not claimed.",
))

PROPS.append(dict(
    id="C25", title="The program succeeds exactly when the run was completed",
    statement="Launched from the command line, WxFactory ends with exit status zero if and only if the configured run reached its end time, and then leaves the same final state, bit for bit, as the library driven directly, whatever "
    "reporting options (profiling, warnings, crash display) are given. Configurations it cannot run (missing, unreadable, invalid, unsuitable process count, output folder that cannot be made) and runs that become invalid or whose solver fails "
    "end all processes with an error and a message, within bounded time; refused runs start nothing, and interrupted ones leave readable outputs of the completed steps. The listing options list what the program accepts.",
    quantifier={"over": ["configurations", "fault_sequences"], "text": "equations, integrators, process counts, flags, defective configurations, runs failing at any step"},
    why_tests_cant="Tests call the library on valid configurations; none launches the program or lets a run fail.",
    anchors=A(["WxFactory", "wx_factory/simulation/simulation.py", "wx_factory/process_topology.py", "wx_factory/common/configuration.py"],
              [("entry point", "WxFactory: main"), ("time loop", "Simulation.run"), ("allowed counts", "Simulation._adjust_num_elements")],
              ["exit status and duration of the program", "standard output and error", "files left behind"]),
    technique="runtime monitoring of whole program launches under injected faults: exit status, streams, duration and files checked against the final state of a library run",
    level_note="Held on the launches observed.",
))

PROPS.append(dict(
    id="C26", title="Whole simulations converge to the solution of their own equations",
    statement="A complete simulation (shallow water, box or sphere; any integrator, solver, Jacobian method, step size, also when the last step is shortened) ends in a state whose distance to the exact time evolution of the model's tendencies "
    "shrinks at the order of the chosen integrator when the step is refined.",
    quantifier={"over": ["configurations", "histories"], "text": "models, integrators and their solvers, grids, rotations, orders, step sizes, process counts"},
    why_tests_cant="Regression tests compare with stored numbers of one step size; a wrong combination of model, Jacobian, solver and step is stable and plausible.",
    anchors=A(["wx_factory/simulation/simulation.py", "wx_factory/integrators", "wx_factory/solvers", "wx_factory/rhs"],
              [("time loop", "Simulation.run, Simulation.step"), ("integrators", "Integrator.__step__"), ("Jacobian products", "solvers/matvec.py")],
              ["final states of complete runs", "tendencies"]),
    technique="runtime monitoring: final states of real runs with two step sizes compared with an eighth-order integration of the recorded model's tendencies by the harness",
    level_note="Held on the runs observed. In the 3-D model the accuracy of Jacobian-based methods is limited to 1e-3 by the recorded finding on complex steps (C14).",
))

PROPS.append(dict(
    id="C27", title="Benchmark PDEs: stated operators, exact Jacobians, full integration order",
    statement="The stiff benchmark problems (Allen–Cahn, advection–diffusion–reaction, porous medium, inviscid Burgers) evaluate their stated finite-difference operators and tendencies on the whole grid, however it is "
    "split among a square number of processes; their Jacobian products are the exact derivatives of those tendencies; and the exponential integrators made for them (EPI and SRERK with any of their exponential solvers) converge to the "
    "exact evolution at their order. The printed solution file holds the solution in grid order.",
    quantifier={"over": ["inputs", "configurations"], "text": "grid sizes, domains, states, boundary types, process grids, integrators, orders, exponential solvers"},
    why_tests_cant="No test runs these problems; an error in one halo or one boundary line shows only on several processes and looks like ordinary diffusion.",
    anchors=A(["wx_factory/stiff_pdes/JTV.py", "wx_factory/stiff_pdes/rhs_jac_pdefuncs.py", "wx_factory/stiff_pdes/initWorld.py", "wx_factory/stiff_pdes/print_stuff.py",
               "wx_factory/integrators/epi_for_others.py", "wx_factory/integrators/srerk_for_others.py"],
              [("operators", "stiff_pdes.JTV"), ("tendencies and Jacobian products", "stiff_pdes.rhs_jac_pdefuncs"), ("integrators", "Epi_others, Srerk_others")],
              ["results of every operator call on every process", "integrated states", "printed solution"]),
    technique="runtime monitoring: results of real operator, Jacobian and integrator calls on 1 to 16 processes assembled and compared with the harness's own stencils, complex-step derivatives and an eighth-order integration",
    level_note="Held on the calls observed. Periodic operators are called on four or more processes only, grids divide evenly, solver dcgs2 (finding of C13) is left out.",
))

PROPS.append(dict(
    id="C28", title="Every process computes with kernels built from the current sources",
    statement="When a run starts, the compiled kernels every process uses were built from the kernel sources and headers as they are now: a change of any of them is followed by exactly one rebuild, no change by none, and no process ever "
    "loads a library that is still being written. If the sources do not compile, no process continues with old kernels: all end with an error, and the next start after the repair works. This does not depend on the number of processes "
    "or the folder the program is started from.",
    quantifier={"over": ["histories", "schedules", "fault_sequences"], "text": "sequences of edits, failures, repairs, forced rebuilds and starts; process counts; compiler timing"},
    why_tests_cant="Tests use whatever library is there; stale or half-written libraries need edits between runs, or processes that overtake the compiler.",
    anchors=A(["wx_factory/compiler/compile_kernels.py", "wx_factory/device/device.py", "wx_factory/pde"],
              [("build decision", "compile_kernels.compile"), ("loading", "Device.__init__, CpuDevice")], ["compiler calls", "version marks of the kernels each process runs", "exit of every process"]),
    technique="runtime monitoring: real starts in scratch copies under a recording, delaying stand-in for the compiler; version marks read back from the kernels each process loaded",
    level_note="Held on the histories observed (1 to 6 processes).",
))

PROPS.append(dict(
    id="C29", title="An assembled operator matrix is the operator; matrix files keep it",
    statement="Assembling an operator (a model's Jacobian or Rosenbrock operator, or any linear operator) into a matrix gives exactly the operator's matrix, with rows and columns in process order, whatever the "
    "number of processes, vector shape or number type; the local variant gives each process its own diagonal block; the matrix stored to file is the one returned. A set of matrices, right-hand sides, permutation and "
    "parameters stored to file is loaded back identical, for every sparse format.",
    quantifier={"over": ["inputs", "configurations"], "text": "operators, vector shapes, number types, process counts, storage options, matrix sets"},
    why_tests_cant="Tests build no matrix; a misplaced block or stale basis entry still gives a plausible spectrum.",
    anchors=A(["wx_factory/solvers/eigenvalue_util.py", "wx_factory/solvers/matvec.py"],
              [("assembly", "gen_matrix"), ("files", "store_matrix_set, load_matrix_set")], ["matrices returned and stored", "loaded sets"]),
    technique="runtime monitoring: matrices returned by real assemblies on 1 to 6 processes compared entry by entry with known operators and, for the models, by products with derivatives of the real tendencies",
    level_note="Held on the operators observed.",
))
