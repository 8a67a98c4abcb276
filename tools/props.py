"""What the checks run and how they describe it."""

_DRV_REAL = [
    "include/fub/solver/* (NoSubcycleSolver, SubcycleFineFirstSolver, SolverFacade, DimensionalSplitLevelIntegrator, SplitSystemSourceLevelIntegrator)",
    "include/fub/RunSimulation.hpp, src/RunSimulation.cpp", "src/split_method/*", "include/fub/output/* (generic outputs and factory)",
    "include/fub/HyperbolicMethod.hpp, HyperbolicPatchIntegrator, FluxMethod, CompleteFromCons, ReflectiveBoundary",
    "equations Burgers, Advection, PerfectGas (1d-3d) with Godunov, HLLEM and MUSCL-Hancock methods", "include/fub/ext/Mpi.hpp, src/ext/*", "src/counter/*",
]
_DRV_STUBS = [
    "adaptive patch hierarchy and integrator context (harness/drv/world.cpp stands in for AMReX, which this sandbox has not)",
    "MPI (sim/sim_mpi.cpp: ranks are simulator tasks; collectives, point-to-point, delays, mismatch and deadlock detection)",
    "steady clock (simulated, per-rank offset and rate)",
]
_DRV_MEASURE = "hash over scenario, step sizes, rejections and schedule of a run"


_DRV_NOTE = ("Samples executions: the real time loop, solvers, integrators, splittings, outputs and kernels run over a simulated patch "
             "hierarchy and simulated MPI ranks; a clean batch is evidence, not proof. Trusts the simulated hierarchy (it replaces AMReX) "
             "and the reference model in harness/drv.")


def _drv(rule, **kw):
    d = dict(harness="drv", quick_s=40, thorough_s=1500, timeout=40, real=_DRV_REAL, stubs=_DRV_STUBS, measure=_DRV_MEASURE,
             note=_DRV_NOTE,
             rule="A run draws equation, kernel, refinement hierarchy, splitting, source term, outputs, ranks, clock behaviour and "
                  "faults from the seed and executes the real time loop. " + rule)
    d.update(kw)
    return d


def _amr(rule, **kw):
    d = dict(harness="amr", quick_s=60, thorough_s=1500, timeout=40,
             rule="A run draws equation, flux method, splitting, subcycling, hierarchy, tagging method, boundary conditions per side, regrid "
                  "frequency, ranks and their patches from the seed and executes a program as in examples/AMReX. " + rule,
             measure="hash over the final hierarchy of a run, and over schedule and events",
             real=["src/AMReX/{PatchHierarchy,GriddingAlgorithm,IntegratorContext,TimeIntegrator,ViewFArrayBox,MultiFabUtilities}.cpp",
                   "src/AMReX/boundary_condition/*, src/AMReX/tagging_method/* (transmissive and reflective boundaries, gradient detector, tag buffer, constant box)",
                   "include/fub/AMReX/* (FluxMethodAdapter, Reconstruction, ForEachFab, AverageState)", "include/fub/solver/*, include/fub/RunSimulation.hpp",
                   "equations Advection2d and PerfectGas<2> with first order, HLLEM and MUSCL-Hancock fluxes"],
             stubs=["AMReX (harness/amr/amrex: boxes, fabs, MultiFab, MFIter, FillPatch, FluxRegister, AmrCore with its clustering, VisMF and ParmParse, written "
                    "from AMReX' documented behaviour; bounds-checked; freshly allocated memory holds what the run draws)",
                    "MPI (sim/sim_mpi.cpp: ranks are simulator tasks)",
                    "libc's file calls are intercepted (sim/sim_fs.cpp); the file system below them is real, in a scratch directory"],
             note="Samples executions in two dimensions without embedded boundaries. AMReX is not installed here; the repository's AMReX side runs over a "
                  "stand-in for it, which is trusted. A crash keeps what was written before it (no power loss).")
    d.update(kw)
    return d


PROPS = {
    "C01": _drv("Non-trivial: at least one step was attempted."),
    "C02": _drv("Non-trivial: at least one step was attempted; the recorded accepted steps are executed again without faults and compared bit for bit.", quick_s=45),
    "C03": _drv("Non-trivial: at least one step was attempted; every due output is decided by a reference predicate."),
    "C04": _drv("Non-trivial: at least one step was attempted; each accepted step is recomputed by an independent recursion over the levels.", quick_s=50),
    "C05": _drv("Non-trivial: at least one step was attempted on a closed domain."),
    "C06": _drv("Non-trivial: at least one step was attempted; all step-size checks of all ranks are recorded.", quick_s=45),
    "C07": _drv("Half of the runs drive the splitting methods directly with recording operators, half inspect the partial steps of whole runs. Non-trivial: an operator was invoked."),
    "C08": _drv("2 to 4 ranks under a random schedule, compared with the same scenario on one rank. Non-trivial: at least one step was attempted.", quick_s=50),
    "C09": dict(
        harness="cnt", quick_s=20, thorough_s=900, timeout=20,
        rule="A run draws up to four rounds of timer and counter histories (nested, moved, assigned, swapped, heap, exception exits, "
             "resets) per rank, a different set and creation order of counters per rank, per-rank clocks and wall-clock jumps, then gathers. "
             "Every counter is compared with a reference that records the simulated clock. Non-trivial: at least one operation.",
        measure="hash over all recorded values, the schedule and the events of a run",
        real=["src/counter/*, include/fub/counter/* (Counter, Timer, CounterRegistry, print_statistics)"],
        stubs=["MPI (sim/sim_mpi.cpp)", "steady and system clock (simulated, per rank)"],
        note="Samples executions; 1 to 5 ranks; each rank uses its counters from one thread, as the code does. Where ranks recorded nothing, both "
             "readings of the statistics (such a rank counts as zero, or not at all) are accepted."),
    "C10": dict(
        harness="io", quick_s=25, thorough_s=900, timeout=30,
        rule="A run lets 1 to 5 ranks read up to three files (directly, as script, as command line with a copy) from a scratch directory, with "
             "obstacles (missing, directory, links), failing, interrupted and short calls and crashes at any file operation. Non-trivial: every run.",
        measure="hash over file contents, file operations, schedule and events of a run",
        real=["src/ext/Mpi.cpp", "src/ext/ProgramOptions.cpp", "src/ext/CopyInputFile.cpp", "libstdc++ streams, boost::filesystem, CPython"],
        stubs=["MPI (sim/sim_mpi.cpp)", "libc's file calls are intercepted (sim/sim_fs.cpp) and fail or are cut short as drawn; the file system below them is real, in a scratch directory"],
        note="Samples executions. Files up to 65 KiB; a crash keeps what was written before it (no power loss)."),
    "C11": dict(
        harness="io", quick_s=30, thorough_s=900, timeout=30,
        rule="A run is a history of one to four program starts on 1 to 4 ranks over one scratch directory with left-over logs, kept logs, links and "
             "directories in the way; starts log messages, meet failing calls, or crash at any file operation. After each start the directory is "
             "compared with the one before. Non-trivial: every run.",
        measure="hash over starts, file operations, schedule and events of a run",
        real=["src/ext/Log.cpp", "src/ext/ProgramOptions.cpp", "boost::log, boost::filesystem, libstdc++ streams"],
        stubs=["one boost::log core serves all simulated ranks: sinks and filters are tagged with the rank that installed them (harness/io/io.cpp)",
               "MPI rank numbers (sim/sim_mpi.cpp)", "wall clock (simulated)",
               "libc's file calls are intercepted (sim/sim_fs.cpp); the file system below them is real, in a scratch directory"],
        note="Samples executions. Messages have at least two characters (the formatter drops shorter ones on purpose); file name templates tell "
             "the logging ranks apart; a crash keeps what was written before it."),
    "C12": dict(
        harness="ode", quick_s=40, thorough_s=1500, timeout=30,
        rule="A run draws one to five solver objects and a program of integrations (14 kinds of right-hand sides, with and without observer "
             "and Jacobian, throwing, turning NaN, failing allocations), settings changes, clones, copies and moves on up to four threads. Every "
             "integration is first done alone in a fresh process and compared with its closed-form solution, then among the others, preempted "
             "between memory accesses, and compared bit for bit. Non-trivial: at least one integration.",
        measure="hash over every evaluation an integration made, and over the events of a run",
        real=["src/ode_solver/*.cpp, include/fub/ode_solver/*", "src/ode_solver/{radau,decsol,dc_decsol}.f (compiled with -fopenmp as in the "
              "repository's build, and with -fsanitize=thread to get a preemption point at every memory access)"],
        stubs=["thread scheduling (simulator tasks passing a baton)", "ThreadSanitizer's runtime (sim/sim_tsan.cpp: preemption points only)",
               "operator new (fails as drawn)"],
        note="Samples executions. The accuracy of well-posed problems is judged against closed forms with a generous multiple of the tolerance; one "
             "solver object is never used by two threads at once, and a right-hand side does not integrate itself."),
    "C13": dict(
        harness="ode", quick_s=40, thorough_s=1500, timeout=30,
        rule="A run draws one to five reactors and a program of setters, advances (with watching, querying and throwing observers), array "
             "operations, copies, moves, assignments (also without memory) and swaps on up to four threads, preempted between memory accesses. Every "
             "object's own sequence of operations is repeated on one reactor in a fresh process, which checks every step and must come to the same "
             "bits. Non-trivial: at least one operation repeated alone.",
        measure="hash over the state after every operation, and over the events of a run",
        real=["src/equations/ideal_gas_mix/FlameMasterReactor.cpp, mechanism/Burke2012.cpp", "src/ode_solver/*.cpp and radau.f, decsol.f, dc_decsol.f "
              "(compiled with -fsanitize=thread to get a preemption point at every memory access)"],
        stubs=["thread scheduling (simulator tasks passing a baton)", "ThreadSanitizer's runtime (sim/sim_tsan.cpp: preemption points only)",
               "operator new (fails as drawn)"],
        note="Samples executions with one mechanism (Burke 2012). Conservation is judged against the integrator's own tolerance, with the margins "
             "measured in the counters; one reactor object is never used by two threads at once; a moved-from reactor is only assigned to or destroyed; "
             "no accuracy is expected outside 200 K to 6000 K, where the mechanism's fits end."),
    "C14": dict(
        harness="omp", quick_s=40, thorough_s=1500, timeout=30,
        rule="A run draws one to three kernels (equation, flux method), one to four threads and up to four rounds of jobs (fluxes, stable time step, "
             "completion, conservative update) with drawn extents, strides, policies and data, shared out over the team, preempted between memory "
             "accesses; patches are surrounded by NaN and canaries, some contain unphysical cells. Between rounds kernels are copied, assigned, moved. "
             "Every job is repeated alone by a new kernel, with the sequential policy and cell by cell. Non-trivial: at least one job compared.",
        measure="hash over the results of every job, and over the events of a run",
        real=["include/fub/flux_method/*.hpp, include/fub/CompleteFromCons.hpp, include/fub/HyperbolicPatchIntegrator.hpp, "
              "src/HyperbolicPatchIntegrator.cpp, include/fub/ext/omp.hpp, include/fub/State*.hpp", "src/equations/**, include/fub/equations/** "
              "(compiled with -fsanitize=thread to get a preemption point at every memory access)"],
        stubs=["OpenMP's runtime (harness/omp/gomp.cpp: teams of simulator tasks)", "ThreadSanitizer's runtime (sim/sim_tsan.cpp: preemption points only)"],
        note="Samples executions. Results are compared up to rounding in the scale of the data. Combinations which the repository does not instantiate "
             "or does not implement (array-wise MUSCL signals, MUSCL-Hancock in 3D, HLLEM in 2D) are left out. The scalar and the vectorised "
             "limiters of the ideal gas mixture's MUSCL method differ by design and are each compared with themselves only."),
    "C20": _amr("A program with outputs writes a checkpoint each cycle; then it is read back, or the program runs again with a crash at any "
                "file operation or failing, short and interrupted calls, every directory left behind is read on one rank, and the program is restarted, "
                "possibly twice, on other ranks. Non-trivial: a restart in the middle of a run with refined levels."),
    "C21": _amr("The hierarchy is recorded before and after each regridding, the tags of each level are observed, and every output is inspected. "
                "Non-trivial: a regridding changed the hierarchy."),
    "C22": _amr("A program with one or two HDF5 outputs (whole domain or a box, with and without field names, options or plain constructor) is started up to "
                "three times in one directory, possibly crashing between outputs, with obstacles in the way and short or interrupted calls; all ranks gather "
                "states at probes at every output. All files ever written are read back and compared with the states recorded from the hierarchy. "
                "Non-trivial: more than one output and refined levels."),
    "C24": _amr("The program runs on one rank and on up to four with other patches, distribution and memory contents; all outputs are compared. In 40 % of "
                "the runs the second machine's ranks report smaller stable steps in the middle of steps, which rejects them; the first machine repeats "
                "the accepted ones. "
                "Non-trivial: the run has refined levels and more than one rank."),
    "C23": _amr("The program is that of the gas turbine example: a tube between the plena of a compressor and a turbine with one of four pressure valves, "
                "a turbine plenum or a fixed pressure behind it, and drawn source terms, flux method and splitting. It runs on one machine (1 to 4 ranks), "
                "where smaller stable steps reported in the middle of steps reject them, and its accepted steps are repeated on another machine without rejections; some runs "
                "are killed and continue from a checkpoint. Every filling of ghost cells and every update of the control is observed. "
                "Non-trivial: refined levels and several ranks.",
                real=["include/fub/AMReX/boundary_condition/{GenericPressureValveBoundary,TurbinePlenumBoundaryCondition,IsentropicPressureExpansion}.hpp",
                      "src/equations/perfect_gas_mix/PlenaControl.cpp, include/fub/equations/perfect_gas_mix/{PlenaControl,PlenaControlFeedback,PlenaControlOutput}.hpp",
                      "include/fub/AMReX/{AxialFluxMethodAdapter,AxialTimeIntegrator,DiffusionSourceTerm}.hpp, src/AMReX/DiffusionSourceTerm.cpp, "
                      "include/fub/equations/perfect_gas_mix/ArrheniusKinetics.hpp",
                      "src/AMReX/{PatchHierarchy,GriddingAlgorithm,IntegratorContext,TimeIntegrator,ViewFArrayBox,MultiFabUtilities}.cpp",
                      "include/fub/solver/*, include/fub/split_method/*, include/fub/RunSimulation.hpp",
                      "PerfectGasMix<1> with HLLEM and MUSCL-Hancock fluxes"]),
}
