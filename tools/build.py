#!/usr/bin/env python3
"""Builds the simulation harnesses from /repo's current working tree.

  build.py [harness ...]      builds into /verif/build, prints the binaries

Every harness lists the repository sources it runs; nothing of /repo's own
build output is used.
"""
import os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BOOST = ["ATOMIC", "CHRONO", "CONTAINER", "FILESYSTEM", "LOG", "PROGRAM_OPTIONS",
         "REGEX", "SERIALIZATION", "THREAD"]
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
FLAGS = (["-std=c++17", "-g1", "-pthread", "-w",
          "-ffp-contract=off",
          f"-I{VERIF}/sim", f"-I{VERIF}/harness", f"-I{REPO}", f"-I{REPO}/include",
          f"-I{BUILD}/gen/include",
          f"-isystem {MPI}", f"-isystem {MPI}/openmpi",
          "-isystem /usr/include/eigen3", "-isystem /usr/include/python3.12",
          "-isystem /usr/include/hdf5/serial",
          "-DFMT_HEADER_ONLY=1", "-DOMPI_SKIP_MPICXX=1", "-include utility"] +
         [f"-DBOOST_{b}_DYN_LINK" for b in BOOST])
BOOST_LIBS = ["-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem",
              "-lboost_program_options", "-lboost_regex", "-lboost_serialization",
              "-lboost_container", "-lboost_chrono", "-lboost_atomic"]
SIM = ["sim/sim.cpp", "sim/sim_mpi.cpp", "sim/sim_mpi_globals.c"]

HARNESS = {}

def harness(name, sources, repo, libs=BOOST_LIBS, cxx="g++", opt="-O1", extra=(), repo_extra=(),
            repo_flags=None, link=(), v_flags=None):
    HARNESS[name] = dict(sources=sources, repo=repo, libs=libs, cxx=cxx, opt=opt,
                         extra=list(extra), repo_extra=list(repo_extra),
                         repo_flags=repo_flags or {}, link=list(link), v_flags=v_flags or {})

EXT = ["src/ext/Mpi.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Version.cpp"]

harness("drv",
        SIM + [f"harness/drv/{f}.cpp" for f in
               ("drv", "checks", "world", "reference", "solver_1", "solver_2", "solver_3",
                "kernel_scalar", "kernel_gas1", "kernel_gas2", "kernel_gas3")],
        ["src/RunSimulation.cpp", "src/HyperbolicPatchIntegrator.cpp",
         "src/boundary_condition/ReflectiveBoundary.cpp",
         "src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp",
         "src/split_method/StrangSplittingLumped.cpp",
         "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/PerfectGas.cpp",
         "@src/equations/advection", "@src/equations/burgers"]
        + [f"src/equations/perfect_gas/{m}_{d}d.cpp" for d in (1, 2, 3)
           for m in ("EinfeldtSignalVelocities", "ExactRiemannSolver", "GodunovMethod", "HllemMethod")]
        + [f"src/equations/perfect_gas/MusclHancockMethod_{d}d.cpp" for d in (1, 2)]
        + EXT + ["@src/counter"],
        libs=BOOST_LIBS + ["-lpython3.12", "-lVc"])

harness("io", SIM + ["sim/sim_fs.cpp", "harness/io/io.cpp"], EXT + ["src/ext/CopyInputFile.cpp"],
        libs=BOOST_LIBS + ["-lpython3.12"])
_TSAN = "-fsanitize=thread"  # calls to sim/sim_tsan.cpp at every memory access
_FORTRAN = [f"src/ode_solver/{f}.f" for f in ("decsol", "dc_decsol", "radau")]
harness("ode", SIM + ["sim/sim_tsan.cpp", "harness/common/isolated.cpp"] + [f"harness/ode/{f}.cpp" for f in ("main", "c12", "c13")],
        ["src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"] + _FORTRAN +
        ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp",
         "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp", "src/equations/IdealGasMix.cpp"],
        libs=["-lgfortran", "-lVc"], repo_extra=[_TSAN],
        repo_flags={f: [_TSAN] for f in _FORTRAN})
_EQ = [f"src/equations/perfect_gas/{m}_{d}d.cpp" for d in (1, 2, 3)
       for m in ("EinfeldtSignalVelocities", "ExactRiemannSolver", "GodunovMethod", "HllemMethod",
                 "MusclHancockMethod", "MusclHancockPrimMethod", "MusclHancockCharacteristicMethod",
                 "ThirdOrderRungeKuttaMethod")
       if (m, d) != ("MusclHancockMethod", 3)]  # which does not link
harness("omp", SIM + ["sim/sim_tsan.cpp", "harness/common/isolated.cpp"] +
        [f"harness/omp/{f}.cpp" for f in ("main", "gomp", "update", "k_simple", "k_gas1", "k_gas2", "k_gas3",
                                          "k_mix1", "k_mix2", "k_ideal1", "k_ideal2")],
        ["src/HyperbolicPatchIntegrator.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp",
         "src/equations/ShallowWater.cpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp",
         "@src/equations/advection", "@src/equations/burgers", "@src/equations/shallow_water"] + _EQ +
        [f"src/equations/perfect_gas_mix/{m}_{d}d.cpp" for d in (1, 2) for m in ("EinfeldtSignalVelocities", "HllemMethod")] +
        [f"src/equations/ideal_gas_mix/{m}_{d}d.cpp" for d in (1, 2)
         for m in ("EinfeldtSignalVelocities", "HlleMethod", "MusclHancockPrimMethod", "MusclHancockCharacteristicMethod")] +
        ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp",
         "src/equations/IdealGasMix.cpp", "src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"] + _FORTRAN,
        libs=["-lgfortran", "-lVc"], repo_flags={f: [_TSAN] for f in _FORTRAN}, repo_extra=[_TSAN, "-fopenmp"],
        # MusclHancockCharacteristicMethod.hpp defines functions in every file that includes it.
        link=["-Wl,--allow-multiple-definition"],
        v_flags={"harness/omp/main.cpp": ["-fopenmp"], # without it OmpLocal is for one thread
                 **{f"harness/omp/{f}.cpp": [_TSAN, "-fopenmp"] for f in
                    ("update", "k_simple", "k_gas1", "k_gas2", "k_gas3", "k_mix1", "k_mix2", "k_ideal1",
                     "k_ideal2")}})
harness("amr", SIM + ["sim/sim_fs.cpp", "harness/amr/amrex/mini_amrex.cpp"] +
        [f"harness/amr/{f}.cpp" for f in ("main", "world", "advection", "gas", "tube", "c23")],
        [f"src/AMReX/{f}.cpp" for f in
         ("PatchHierarchy", "GriddingAlgorithm", "IntegratorContext", "TimeIntegrator", "ViewFArrayBox",
          "MultiFabUtilities", "CartesianGridGeometry", "DiffusionSourceTerm", "output/WriteHdf5", "output/WriteHdf5Impl", "output/DebugOutput",
          "boundary_condition/BoundarySet", "boundary_condition/TransmissiveBoundary", "tagging_method/ConstantRegion",
          "tagging_method/TagBuffer", "boundary_condition/TurbinePlenumBoundaryCondition")] +
        ["src/RunSimulation.cpp", "src/HyperbolicPatchIntegrator.cpp", "src/boundary_condition/ReflectiveBoundary.cpp",
         "src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp",
         "src/split_method/StrangSplittingLumped.cpp",
         "src/equations/Advection.cpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "@src/equations/advection"] +
        [f"src/equations/perfect_gas_mix/{m}.cpp" for m in
         ("PlenaControl", "PlenaControlOutput", "ArrheniusKinetics", "EinfeldtSignalVelocities_1d", "HllemMethod_1d")] +
        [f"src/equations/perfect_gas/{m}_2d.cpp" for m in ("EinfeldtSignalVelocities", "HllemMethod", "MusclHancockMethod")] +
        EXT + ["@src/counter"],
        libs=BOOST_LIBS + ["-lpython3.12", "-lVc", "-lhdf5_serial"], extra=[f"-I{VERIF}/harness/amr/shadow", f"-I{VERIF}/harness/amr/amrex"])

harness("cnt", SIM + ["harness/cnt/cnt.cpp"], ["@src/counter"], libs=[])


def expand(files):
    out = []
    for f in files:
        if f.startswith("@"):
            d = os.path.join(REPO, f[1:])
            if not os.path.isdir(d):
                continue
            for n in sorted(os.listdir(d)):
                if n.endswith((".cpp", ".cc", ".c")):
                    out.append(os.path.join(f[1:], n))
        else:
            out.append(f)
    return out


def new_sources(name):
    """Repository sources that did not exist when the lists above were written
    (a refactoring may move code into a file of its own)."""
    known = set(open(os.path.join(VERIF, "tools/known_sources.txt")).read().split())
    out = []
    for base, _, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(base, REPO)
        if "SAMRAI" in rel or "cutcell" in rel or "multi_block" in rel or ("AMReX" in rel and name != "amr"):
            continue
        for f in sorted(files):
            p = os.path.join(rel, f)
            if f.endswith(".cpp") and p not in known:
                out.append(p)
    return out


def generate_headers():
    inc = os.path.join(BUILD, "gen/include/fub")
    os.makedirs(inc, exist_ok=True)
    import re
    text = open(os.path.join(REPO, "include/fub/config.hpp.in")).read()
    text = re.sub(r"#cmakedefine FUB_DEFAULT_CHUNK_SIZE.*",
                  "#define FUB_DEFAULT_CHUNK_SIZE 8", text)
    text = text.replace("#cmakedefine FUB_WITH_SUNDIALS", "/* #undef FUB_WITH_SUNDIALS */")
    text = re.sub(r"#cmakedefine (\w+)", r"#define \1", text)
    put(os.path.join(inc, "config.hpp"), text)
    put(os.path.join(BUILD, "gen/version.cpp"),
        'extern "C" {\nextern const char* const GIT_REV;\nextern const char* const GIT_TAG;\n'
        'extern const char* const GIT_BRANCH;\n'
        'const char* const GIT_REV = "rev";\nconst char* const GIT_TAG = "tag";\n'
        'const char* const GIT_BRANCH = "branch";\n}\n')


def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def all_sources():
    """Everything the parts of the repository that build here are made of."""
    files = open(os.path.join(VERIF, "tools/core_sources.txt")).read().split()
    return [f for f in files if os.path.exists(os.path.join(REPO, f))]


def ninja(names, everything=False):
    out = ["ninja_required_version = 1.5",
           "rule cc\n  command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in",
           "rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out",
           "rule link\n  command = $cxx -o $out $in $ldflags\n  description = LINK $out"]
    for name in names:
        h = HARNESS[name]
        objs = []
        repo = expand([f for f in h["repo"] if f.startswith("@") or
                       os.path.exists(os.path.join(REPO, f))])
        repo += [f for f in new_sources(name) if f not in repo]
        more = [f for f in all_sources() if f not in repo] if everything else []
        archive = []
        for kind, files in (("v", h["sources"]), ("r", repo + ["gen:version.cpp"]), ("r", more)):
            for f in files:
                if f.startswith("gen:"):
                    src = os.path.join(BUILD, "gen", f[4:])
                    f = f[4:]
                elif kind == "v":
                    src = os.path.join(VERIF, f)
                else:
                    src = os.path.join(REPO, f)
                obj = f"{BUILD}/{name}/{kind}_" + f.replace("/", "_") + ".o"
                cxx = h["cxx"]
                flags = [h["opt"]] + h["extra"] + FLAGS
                if kind == "v":
                    flags += h["v_flags"].get(f, [])
                if kind == "r":
                    flags += h["repo_extra"] + h["repo_flags"].get(f, [])
                if f.endswith(".c"):
                    cxx = "gcc"
                    flags = [x for x in flags if not x.startswith(("-std=", "-include"))]
                if f.endswith(".f"):
                    cxx = "gfortran"
                    flags = ["-O2", "-g1", "-std=legacy", "-fopenmp", "-w"] + h["repo_flags"].get(f, [])
                    out.append(f"build {esc(obj)}: ccf {esc(src)}\n  cxx = {cxx}\n  flags = {' '.join(flags)}")
                else:
                    out.append(f"build {esc(obj)}: cc {esc(src)}\n  cxx = {cxx}\n  flags = {' '.join(flags)}")
                (archive if files is more else objs).append(obj)
        libs = list(h["libs"])
        if archive:
            lib = f"{BUILD}/{name}/rest.a"
            out.append(f"build {esc(lib)}: ar {' '.join(esc(o) for o in archive)}")
            objs.append(lib)
        if everything:
            libs += [x for x in BOOST_LIBS + ["-lpython3.12", "-lVc", "-lgfortran", "-lmpfr", "-lgmp"] if x not in libs]
        out.append(f"build {esc(BUILD)}/vsim_{name}: link {' '.join(esc(o) for o in objs)}\n"
                   f"  cxx = {h['cxx']}\n  ldflags = -pthread {' '.join(h['link'])} {' '.join(libs)} -ldl")
    if any(".f\n" in o for o in out):
        out.insert(1, "rule ccf\n  command = $cxx $flags -c $in -o $out\n  description = FC $in")
    out.append("default " + " ".join(f"{esc(BUILD)}/vsim_{n}" for n in names))
    return "\n".join(out) + "\n"


def build(names, log=None, everything=False):
    os.makedirs(BUILD, exist_ok=True)
    generate_headers()
    bf = os.path.join(BUILD, f"build-{'-'.join(sorted(names))}.ninja")
    put(bf, ninja(names, everything))
    r = subprocess.run(["ninja", "-f", bf, "-j8", "-k0"], cwd=BUILD, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "w") as f:
            f.write(r.stdout)
    if r.returncode != 0 and not everything and "undefined reference" in r.stdout:
        # Code may have moved into a source file this harness does not list.
        return build(names, log, True)
    return r.returncode, r.stdout


if __name__ == "__main__":
    names = sys.argv[1:] or list(HARNESS)
    rc, text = build(names)
    if rc != 0:
        sys.stderr.write(text[-8000:])
    sys.exit(rc)
