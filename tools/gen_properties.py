#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A run ends exactly where asked and takes only admissible steps",
 """A run accepts only positive time steps, and no accepted step carries the time past the end time,
 past the next time an output asked for, or beyond the CFL fraction of the current stable-step estimate
 (directly after a rejection: beyond the CFL fraction of the step size that rejection reported).
 Time and cycle count after every accepted step are the sum and the number of the accepted steps, and the
 progress line of a step reports exactly that cycle, that step size, the wall time since the reference
 point and the wall time since the previous progress line (for the first one: since the run started).
 The run stops as soon as, and not before, the end time (up to the smallest step size) or the cycle limit
 is reached (with backups disabled also at the first rejected step).""",
 ["fault_sequences", "histories", "configurations"],
 """every history of stable-step estimates, rejections (any number in a row, any reported size), clock
 readings (stalls, jumps), output schedules, end times, cycle limits, CFL numbers, restarts at a non-zero
 time, with and without backups""",
 """No existing test calls the time-stepping driver at all; the interesting behaviour depends on unbounded
 histories of estimates and rejections.""",
 ["include/fub/RunSimulation.hpp", "src/RunSimulation.cpp"],
 [("limited step = min(end, next output, cfl * estimate)", "include/fub/RunSimulation.hpp RunSimulation"),
  ("estimate replaced by the reported size after a rejection", "include/fub/RunSimulation.hpp failure_dt")],
 [("time_point", "current time of the run", "include/fub/RunSimulation.hpp")],
 ["solver calls of a simulated grid backend", "progress log records", "simulated clock"])

prop("C02", "A rejected time step leaves no trace",
 """With backups enabled, the complete state after every accepted step is bit for bit the state that the same
 accepted step sizes produce when no step was ever rejected, whatever the refinement level, substep,
 direction, rank or point of the step at which the rejections occurred and however many follow each other.
 Post-step hooks, progress lines and outputs are executed for accepted steps only, never for a rejected attempt.""",
 ["fault_sequences", "schedules", "histories"],
 """every placement of rejections inside a step (level, substep, direction, rank, before or after partial
 updates, regridding in the same step), every number of consecutive rejections, any grid layout""",
 """Tests never inject a rejection and never compare the state after a rollback with an undisturbed run;
 partial updates reach any of the solver, the grid, the fluxes, the counters and the method objects.""",
 ["include/fub/RunSimulation.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp",
  "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/SolverFacade.hpp",
  "include/fub/solver/DimensionalSplitLevelIntegrator.hpp",
  "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "include/fub/HyperbolicMethod.hpp"],
 [("deep copy before and after every accepted step", "include/fub/RunSimulation.hpp MakeBackup"),
  ("clone on copy of the type-erased methods", "include/fub/HyperbolicMethod.hpp")],
 [("backup", "deep copy of the solver taken after each accepted step", "include/fub/RunSimulation.hpp")],
 ["state hash of the simulated hierarchy after every accepted step", "hook and output invocations"])

prop("C03", "Every due output is written exactly once, of an accepted state",
 """During a run each configured output is invoked exactly once for every accepted state whose cycle is a
 multiple of one of its frequencies or whose time is a multiple of one of its intervals (up to the smallest
 step size), in order, and a collection of outputs invokes no member that is not due. The run makes a step
 end at every interval multiple up to and including the end time, and rejected steps, other outputs, the
 scale of the times and rounding neither suppress, duplicate nor shift an output.""",
 ["fault_sequences", "histories", "configurations"],
 """every combination of frequencies and intervals over several outputs (also given as input-script options),
 every history of step sizes and rejections, end times that are or are not multiples, restarts""",
 """Nothing tests the output schedule. Whether a floating-point time hits its multiple, and whether a
 rejection directly after an output repeats it, depends on the whole history of steps.""",
 ["include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp",
  "include/fub/output/AsOutput.hpp", "include/fub/output/OutputFactory.hpp", "include/fub/RunSimulation.hpp"],
 [("next multiple as step limit", "OutputAtFrequencyOrInterval::NextOutputTime"),
  ("due test on cycle and time", "OutputAtFrequencyOrInterval::ShallOutputNow"),
  ("per-output filter", "MultipleOutputs::operator()")],
 [], ["output invocations with the state they were given"])

prop("C04", "Refinement levels advance in lock step and end synchronised",
 """In an accepted coarse step every refinement level is advanced over exactly the coarse step: in one go
 without subcycling, and with subcycling in as many equal substeps per coarser substep as the refinement
 ratio, so that all levels end at the same time. A level is advanced only with ghost cells that were filled
 from data of the right time after the last regridding, fluxes across a coarse-fine boundary are reset
 before and applied after the finer level's substeps, and coarse cells covered by a finer level end as the
 average of the finer cells with their dependent variables recomputed.""",
 ["histories", "configurations", "fault_sequences"],
 """every hierarchy depth and refinement ratio, every regrid schedule (also in the middle of subcycles), with
 and without subcycling, source terms, rejections and rollbacks in between, any number of ranks""",
 """No test builds a hierarchy; the guarantee concerns the order and arguments of an unbounded recursive
 sequence of operations on several levels.""",
 ["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp",
  "include/fub/solver/DimensionalSplitLevelIntegrator.hpp",
  "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
 [("recursion over levels, fine first", "SubcycleFineFirstSolver::AdvanceLevel"),
  ("ghost fill after regridding", "DimensionalSplitLevelIntegrator::PreAdvanceLevel")],
 [], ["operations on the simulated hierarchy, versions of every patch, ghost region and flux register"])

prop("C05", "Totals of conserved quantities are preserved across the hierarchy",
 """On a periodic or closed domain without source terms, the volume-weighted total of each conserved quantity
 over the composite grid changes over accepted steps by rounding error only, for all refinement layouts,
 refinement ratios, directions, numbers of ranks, with and without subcycling and with rejected steps in between.""",
 ["histories", "configurations", "fault_sequences", "schedules"],
 """every initial state, hierarchy layout incl. regridding, decomposition over ranks and threads, step history
 with rejections, splitting method and flux method""",
 """Conservation is a property of the whole coupled update (fluxes, flux correction, coarsening, rollback) over
 arbitrary histories; the tests apply single kernels to single patches.""",
 ["include/fub/HyperbolicPatchIntegrator.hpp", "src/HyperbolicPatchIntegrator.cpp",
  "include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp",
  "include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/flux_method/FluxMethod.hpp"],
 [("one flux value per face, conservative update", "HyperbolicPatchIntegrator::UpdateConservatively"),
  ("coarse-fine flux correction scaled with the substep", "AccumulateCoarseFineFluxes / ApplyFluxCorrection calls")],
 [], ["composite-grid totals after every accepted step"])

prop("C06", "A too large step anywhere rejects the step everywhere, with a usable size",
 """Whenever any patch on any rank finds, on any level, substep, direction or partial step, that the step it is
 about to take exceeds its stable size, the whole coarse step is rejected on all ranks alike, and otherwise
 no step is rejected for that reason. The reported size is the global minimum found at that point,
 converted to a step of the coarsest level (multiplied by the total refinement ratio when subcycling), and
 before each step the estimate is the minimum over all levels, directions, source terms and ranks so converted.""",
 ["fault_sequences", "schedules", "configurations"],
 """every distribution of local stable sizes over ranks, levels, directions and substeps, every hierarchy and
 splitting method, every schedule of the ranks""",
 """The tests never run two ranks nor two levels nor a failing step; a rank-local decision deadlocks or
 corrupts only when ranks disagree.""",
 ["include/fub/solver/DimensionalSplitLevelIntegrator.hpp",
  "include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp",
  "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "src/ext/Mpi.cpp"],
 [("global minimum before each partial step", "DimensionalSplitLevelIntegrator::AdvanceLevelNonRecursively"),
  ("rescaling of the reported size", "SubcycleFineFirstSolver::AdvanceLevel scale_dt_on_error")],
 [], ["results of the level and hierarchy advance on every simulated rank"])

prop("C07", "Operator splitting covers each operator's time exactly and stops on failure",
 """For every splitting method and every number of operators, the partial steps taken by each operator are
 positive and sum up to the requested step; first-order splitting applies the operators once in the given
 order and the symmetric splittings form a sequence that reads the same forwards and backwards. The
 directions alternate their order between consecutive cycles and between consecutive substeps. As soon as one partial step
 fails no further operator runs, and that very failure is what the caller receives.""",
 ["fault_sequences", "programs", "histories"],
 """every splitting method (direct and type-erased, copied and assigned), number of operators, step size, nesting
 of system and source terms, and failure at every partial step; every cycle and substep parity""",
 """No test exercises splitting; a failure must be injected at each of the partial steps to see whether the
 remaining ones are suppressed.""",
 ["include/fub/split_method/SplittingMethod.hpp", "src/split_method/GodunovSplitting.cpp",
  "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp",
  "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
 [("recursive generalisation to N operators", "SplittingMethod::AdvanceRecursively"),
  ("early return on failure", "src/split_method/*.cpp")],
 [], ["sequence of operator invocations with their step sizes", "returned result"])

prop("C08", "Ranks stay in step: same decisions, matching collectives, same result",
 """For every number of ranks, every distribution of the patches over them and every relative speed of the
 ranks, all ranks execute the same sequence of collective operations, take the same steps, rejections and
 output decisions, and none waits forever. The resulting states are bit for bit those of a single rank.""",
 ["schedules", "configurations", "fault_sequences"],
 """every interleaving of the ranks, stalled and slow ranks, every patch distribution incl. ranks without any
 patch, with rejections found by a single rank only""",
 """Tests run on one rank; schedules and distributions are not controllable with a real MPI.""",
 ["src/ext/Mpi.cpp", "include/fub/RunSimulation.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp",
  "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp"],
 [("global minimum of step sizes", "src/ext/Mpi.cpp MinAll")],
 [], ["collective call log of every simulated rank", "final state hash"])

prop("C09", "Counters and timers report what was measured, on every rank",
 """A timer adds to its counter exactly one value, the time that passed between its start and its end on the
 monotonic clock, no matter how it is moved, nested or left by an exception. Count, total, minimum, maximum,
 mean, variance and standard deviation are those of the recorded values, and gathering over all ranks terminates and
 yields on the root rank every counter with the extremes over all ranks, the mean of the per-rank means and their spread.""",
 ["schedules", "histories", "configurations"],
 """every history of timer operations and clock advances (zero, tiny, huge), every order in which ranks create
 their counters, every rank schedule""",
 """No test measures with a controlled clock or gathers from more than one rank; whether gathering terminates
 depends on the order in which each rank visits its counters.""",
 ["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp",
  "include/fub/counter/Counter.hpp", "include/fub/counter/CounterRegistry.hpp"],
 [("RAII timer", "src/counter/Timer.cpp"), ("gather per counter", "src/counter/CounterRegistry.cpp")],
 [], ["counter values and gathered statistics under a simulated clock"])

prop("C10", "Input files reach every rank intact, or every rank reports the failure",
 """Reading an input file in parallel gives every rank exactly the bytes of the file, for any content and size,
 even when reads are short, interrupted or retried; if the file is missing, unreadable, or reading it fails,
 every rank gets an error, and no rank waits forever or continues with partial content. A requested
 copy of the input file is byte for byte the input file, creates missing directories, and leaves the
 input file itself unchanged.""",
 ["fault_sequences", "schedules", "inputs"],
 """every file content, every sequence of I/O outcomes (missing, permission, short read, EINTR, EIO at any
 call), every rank schedule""",
 """I/O errors on the root rank only show on the other ranks; neither several ranks nor I/O faults occur in
 the tests.""",
 ["src/ext/Mpi.cpp", "src/ext/ProgramOptions.cpp", "src/ext/CopyInputFile.cpp"],
 [("root reads, size and bytes are broadcast", "src/ext/Mpi.cpp ReadAndBroadcastFile"),
  ("root copies the configuration", "src/ext/CopyInputFile.cpp")],
 [], ["content returned per simulated rank, errors, blocked ranks"])

prop("C11", "Log files are never lost or mixed up",
 """Starting a run never destroys or overwrites a log of an earlier run: each selected rank's previous log is kept
 complete under a new name, earlier kept logs are untouched, and a crash at any moment of the start leaves
 all old logs readable under the old or the new name. Exactly the selected ranks write a log, into
 their own file, containing every message of that rank that is not in a suppressed channel once,
 in order, with its severity, channel, time and level tags on each line.""",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 """every sequence of starts and crashes (at every file-system operation), any set of logging ranks and file
 name template, any existing files or directories in the way, any sequence of messages and tags""",
 """Nothing tests logging; losing an old log needs a particular earlier state of the directory and a
 particular rank selection or crash point.""",
 ["src/ext/Log.cpp", "include/fub/ext/Log.hpp"],
 [("rename before opening", "src/ext/Log.cpp InitializeLogging"),
  ("formatter with prefix per line, channel filter", "src/ext/Log.cpp FormatLogs_")],
 [], ["content of a scratch directory after each simulated start, crash and run"])

prop("C12", "The stiff ODE integrator is correct, isolated per thread and fails loudly",
 """An integration either returns the solution at the end time within tolerance or reports an error, within a
 bounded number of evaluations, for every right-hand side incl. ones that become stiff, produce NaN or throw;
 an exception thrown by a callback reaches the caller. The result depends only on the
 arguments and settings: earlier (also failed) integrations with the same or another solver object, copies of the solver, and
 integrations running concurrently in other threads do not change a single bit of it. Observer
 callbacks see increasing times ending at the end time.""",
 ["schedules", "histories", "fault_sequences"],
 """every interleaving of concurrent integrations down to single memory accesses, every history of earlier
 integrations with other sizes, tolerances and failures, every point at which a callback misbehaves""",
 """The tests integrate one reactor in one thread. The integrator keeps Fortran common blocks and
 cached workspaces, whose sharing only shows under particular interleavings or histories.""",
 ["src/ode_solver/RadauSolver.cpp", "src/ode_solver/radau.f", "src/ode_solver/decsol.f",
  "src/ode_solver/dc_decsol.f", "include/fub/ode_solver/OdeSolver.hpp", "include/fub/ode_solver/RadauSolver.hpp",
  "src/ode_solver/OdeSolverFactory.cpp"],
 [("thread private common blocks", "src/ode_solver/radau.f"), ("workspace owned by the solver", "RadauSolver::integrate")],
 [("work_space_", "scratch memory kept between integrations", "include/fub/ode_solver/RadauSolver.hpp")],
 ["final values, callback sequence and error of each integration"])

prop("C13", "Chemical reactors are independent values whose advance conserves mass and energy",
 """A copied, moved or assigned reactor is in the same state as its source and behaves identically from then on, and no
 operation on one reactor object, in whatever thread and interleaving, changes the outcome of operations on another.
 Advancing keeps density and internal energy, keeps mass fractions summing to one and non-negative up to
 the integrator tolerance, and gives the same result whether or not an observer is attached;
 setting temperature, pressure, density, mass or mole fractions, energy or enthalpy is read back as set.""",
 ["schedules", "histories"],
 """every program of reactor operations over several objects incl. copies, moves and assignments, on several
 threads, interleaved down to single memory accesses""",
 """The tests use a single reactor in one thread and never copy one; aliasing between copies (internal views into own storage)
 and stale caches need particular histories.""",
 ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp",
  "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp",
  "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp", "src/equations/IdealGasMix.cpp"],
 [("re-seating of internal views on copy and move", "FlameMasterReactor special members"),
  ("thermo cache keyed by temperature", "UpdateThermoState")],
 [("thermoTemp", "temperature for which the cached thermodynamic data is valid", "FlameMasterState")],
 ["reactor state after each operation, compared with an isolated twin"])

prop("C14", "Patch kernels give the same result for every execution policy and schedule",
 """Numerical fluxes, stable step sizes, conservative updates and reconstruction of dependent variables on a
 patch are the same (up to rounding) for the sequential, vectorised and threaded execution policies, do not depend on
 what the same kernel object computed before, on how the cells are cut into patches, on how many threads
 share the patches or on how the threads interleave, and read and write only the cells they
 are given. Per-thread values give each thread its own instance, and their reductions cover all threads.""",
 ["schedules", "histories", "configurations"],
 """every equation and flux method combination of the library core, every patch extent incl. shorter than and
 not a multiple of the vector length, strides, number of threads, assignment of patches to threads, interleaving
 down to single memory accesses""",
 """Tests run a few kernels single-threaded on one fixed patch with sequential and vectorised policies; scratch
 members shared between patches and threads only matter in particular orders.""",
 ["include/fub/flux_method/FluxMethod.hpp", "include/fub/HyperbolicPatchIntegrator.hpp",
  "src/HyperbolicPatchIntegrator.cpp", "include/fub/CompleteFromCons.hpp", "include/fub/ext/omp.hpp",
  "include/fub/Execution.hpp", "include/fub/flux_method/GodunovMethod.hpp", "include/fub/flux_method/HllMethod.hpp",
  "include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/StateRow.hpp", "include/fub/StateArray.hpp",
  "include/fub/ForEach.hpp"],
 [("per-thread instances", "include/fub/ext/omp.hpp OmpLocal"), ("row loop with remainder", "include/fub/flux_method/FluxMethod.hpp")],
 [], ["flux, state and step-size arrays with guard cells"])

prop("C20", "A simulation restarted from a checkpoint continues as if never interrupted",
 """A checkpoint written with WriteCheckpointFile contains the cell data, grids, time points and cycle counts of all levels. A
 run on the AMReX grid that is restarted from any of its checkpoints, on any number of ranks, also repeatedly, makes the same time
 steps, regrids at the same cycles to the same grids and holds bit for bit the same states as the uninterrupted run. If a file
 operation fails while a checkpoint is written, every rank reports an error (or the program ends); a process that crashes at
 any moment, or fails to write, leaves every checkpoint that was completed earlier usable, and reading what it left of an
 incomplete one either reports an error or gives exactly the state it was written for. Calls that are cut
 short or interrupted do not matter.""",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 """every checkpoint time, hierarchy, equation, flux method, subcycling mode, regrid frequency, number of ranks before and after,
 distribution of patches, crash point and failing file operation""",
 "No test writes or reads a checkpoint, and the existing build has no AMReX at all.",
 ["src/AMReX/PatchHierarchy.cpp", "src/AMReX/cutcell/PatchHierarchy.cpp", "include/fub/AMReX/PatchHierarchy.hpp",
  "src/AMReX/GriddingAlgorithm.cpp", "src/AMReX/IntegratorContext.cpp"],
 [("WriteCheckpointFile / ReadCheckpointFile", "src/AMReX/PatchHierarchy.cpp"),
  ("regrid decision by cycles", "src/AMReX/IntegratorContext.cpp PreAdvanceLevel")],
 [("level header", "time point, cycle count, box array of each level", "src/AMReX/PatchHierarchy.cpp")],
 ["hierarchies after every step of the original and the restarted run", "directory contents after a crash"])

prop("C21", "Regridding keeps levels nested and preserves the data of refined regions",
 """At every time the levels of the AMReX grid are properly nested and blocked, no box exceeds the allowed size and coarse cells
 covered by finer ones hold their mean. A regridding leaves its base level and all coarser ones as they are, keeps every
 value of cells that stay refined bit for bit, fills each newly refined cell with the value of the coarse cell it lies in, in all
 components, keeps time points and cycles of the levels, does not change the integral of any conserved quantity, and
 refines every tagged cell. Regridding takes place in every step whose cycle is a multiple of the regrid frequency.""",
 ["histories", "configurations", "schedules"],
 "every tagging history (levels appear, move, vanish, several at once), refinement ratio, decomposition and number of ranks",
 "No test regrids, and the existing build has no AMReX at all.",
 ["src/AMReX/GriddingAlgorithm.cpp", "src/AMReX/IntegratorContext.cpp", "include/fub/AMReX/tagging_method/GradientDetector.hpp",
  "src/AMReX/tagging_method/TagBuffer.cpp", "src/AMReX/PatchHierarchy.cpp", "src/AMReX/cutcell/GriddingAlgorithm.cpp"],
 [("MakeNewLevelFromCoarse / RemakeLevel / ClearLevel", "src/AMReX/GriddingAlgorithm.cpp"),
  ("regrid decision and context reset", "src/AMReX/IntegratorContext.cpp")],
 [("patch levels", "box array, data, time point and cycles of each level", "include/fub/AMReX/PatchHierarchy.hpp")],
 ["hierarchies before and after every regridding", "tags of every level"])

prop("C24", "Results on the AMReX grid do not depend on decomposition, ranks or memory",
 """The time steps and states of a simulation on the AMReX grid are bit for bit the same for every number of ranks, distribution
 of patches over ranks, size of patches (as far as the same cells are refined) and content of freshly allocated memory: every
 ghost cell, flux and coarse-fine correction that is used was computed before. Attempts of time steps that are rejected on any
 rank and level leave no trace in the steps after them. In domains closed by walls or periodic
 boundaries the composite integrals of mass and energy (and of momentum along periodic directions) stay constant, and dependent
 variables (pressure) agree with the conserved ones in every cell after every step.""",
 ["schedules", "configurations", "histories", "fault_sequences"],
 """every decomposition, number of ranks and schedule; equations, flux methods, splittings, boundary conditions per side,
 refinement hierarchies, subcycling modes and regrid frequencies""",
 "No test runs a simulation on the AMReX grid, and the existing build has no AMReX at all.",
 ["src/AMReX/IntegratorContext.cpp", "src/AMReX/GriddingAlgorithm.cpp", "src/AMReX/TimeIntegrator.cpp", "include/fub/AMReX/FluxMethodAdapter.hpp",
  "include/fub/AMReX/Reconstruction.hpp", "include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp",
  "src/AMReX/boundary_condition/TransmissiveBoundary.cpp", "src/AMReX/boundary_condition/BoundarySet.cpp", "include/fub/AMReX/PatchHierarchy.hpp",
  "include/fub/solver/SubcycleFineFirstSolver.hpp"],
 [("ghost cells: FillGhostLayerTwoLevels, boundary conditions", "src/AMReX/IntegratorContext.cpp"),
  ("flux registers", "src/AMReX/IntegratorContext.cpp ApplyFluxCorrection"),
  ("stable step over tiles and ranks", "include/fub/AMReX/FluxMethodAdapter.hpp")],
 [("scratch and fluxes", "per level work space with ghost cells", "include/fub/AMReX/IntegratorContext.hpp")],
 ["hierarchies after every step, cell by cell, on all ranks"])

prop("C22", "Data files and probes contain every written state completely",
 """Every HDF5 output of an adaptive run appends exactly one record to its file when its schedule says so, and
 nothing else touches earlier records: for any number and history of levels, patches and ranks, record k has the time, cycle and, for every
 cell of the requested box of the finest possible level and every component, exactly the value of the finest level covering that cell
 (zeros included). The file describes that box (lower corner, cell size, fields). Starting again, also after a crash between two outputs,
 keeps every older file under a new name; a directory in the way redirects the output. Values gathered at points are those of the
 finest level covering each point, the same on every rank.""",
 ["histories", "crash_points", "inputs"],
 "every history of levels, output schedule, box, set of points, crash between outputs and number of ranks", "No test writes data files.",
 ["src/AMReX/output/WriteHdf5.cpp", "src/AMReX/output/WriteHdf5Impl.cpp", "src/AMReX/PatchHierarchy.cpp (WriteToHDF5, GatherStates)", "include/fub/output/Hdf5Handle.hpp"],
 [("extend dataset and write hyperslab", "src/AMReX/PatchHierarchy.cpp: OpenHdf5Database"), ("compose the levels", "src/AMReX/output/WriteHdf5Impl.cpp")])

prop("C23", "Valves and gas-turbine control follow their state machine across rejected steps",
 """In the gas turbine's combustion tube the pressure valve at the inlet opens, delays its fuel and closes exactly when the conditions
 on pressure, time since opening and fill fraction hold that its documentation and model give, and the ghost cells behind it hold a wall when it is
 closed and the expanded inflow of the compressor's state when it is open. The ghost cells behind the outlet follow the turbine's
 plenum, or the isentropic relation to a fixed pressure with unchanged composition. The control (compressor, turbine, power, efficiency, fuel) is
 updated exactly once per accepted step, for that step's length and with the fluxes of that step, and follows its model equations;
 rejected steps leave no trace in it. Valve, control and states are bit for bit the same for all ranks, distributions of patches,
 contents of memory and rejections on the way, and, for valves without a memory of their own, after a restart from a checkpoint. The mass in the tube changes by what flows through its
 ends. The control's output file holds one row per output with the values the control had.""",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 """every valve, pressure and step history, rejection at any level and rank, decomposition of the tube, restart after any output""",
 "No test runs a valve or the control, and the existing build has no AMReX at all.",
 ["include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp", "src/equations/perfect_gas_mix/PlenaControl.cpp",
  "include/fub/equations/perfect_gas_mix/PlenaControlFeedback.hpp", "include/fub/AMReX/boundary_condition/TurbinePlenumBoundaryCondition.hpp",
  "src/AMReX/IntegratorContext.cpp", "include/fub/AMReX/boundary_condition/IsentropicPressureExpansion.hpp"],
 [("valve conditions and time of opening", "include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp"),
  ("update of the control", "src/equations/perfect_gas_mix/PlenaControl.cpp"),
  ("feedback after an accepted step", "src/AMReX/IntegratorContext.cpp")])

prop("C30", "Numerical fluxes are consistent, Riemann solutions satisfy jump conditions",
 """For equal states on both sides a numerical flux equals the physical flux, and the exact Riemann solution
 satisfies conservation across each wave.""",
 ["inputs"], "all admissible states and directions",
 "Tests sample a few states.",
 ["include/fub/equations/perfect_gas/ExactRiemannSolver.hpp", "include/fub/flux_method/HllMethod.hpp"],
 [("Newton iteration for the middle pressure", "src/equations/perfect_gas/ExactRiemannSolver.hpp")])

prop("C31", "Views and spans address exactly the elements they describe",
 """Spans, multi-dimensional views, sub-views and index boxes refer to exactly the elements of their extents and strides.""",
 ["inputs"], "all extents, layouts and slices", "Tests sample fixed shapes.",
 ["include/fub/core/span.hpp", "include/fub/core/mdspan.hpp", "include/fub/PatchDataView.hpp"],
 [("layout mappings", "include/fub/core/mdspan.hpp")])

prop("C32", "Geometry distance functions and cut-cell stabilisation are exact",
 """Signed distances have the sign and magnitude of the described bodies, and stabilised cut-cell fluxes conserve and
 keep constant states.""",
 ["inputs"], "all bodies, points and cut-cell configurations", "Tests sample one polygon.",
 ["src/geometry/Polygon.cpp", "src/geometry/Cone.cpp", "src/cutcell_method/KbnStabilisation.cpp"],
 [("crossing number / segment distance", "src/geometry/Polygon.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
