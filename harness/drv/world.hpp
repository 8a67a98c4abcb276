// A small block-structured AMR world that stands in for AMReX: grid, ghost
// cells, flux registers and ranks; the solvers above it and the kernels below
// it are the repository's.
#pragma once
#include "kernels.hpp"
#include "sim.hpp"

#include "fub/Duration.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/counter/Timer.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/ext/outcome.hpp"

#include <memory>
#include <optional>
#include <utility>
#include <vector>

enum OutputKind { OutRecorder, OutOptions, OutAsOutput, OutTimes, OutCounter };
struct OutputSpec {
  int kind{OutRecorder};
  std::vector<std::ptrdiff_t> frequencies;
  std::vector<double> intervals;
  std::vector<double> times;               // OutTimes
  bool inherit_freq{false}, inherit_int{false}; // OutOptions
};

enum FaultKind { FaultStableDt, FaultSource, FaultPostLevel, FaultKinds };
struct Fault {
  int attempt;  // number of the AdvanceHierarchy call
  int index;    // number of the flux computation / source call / level end
  int kind;
  int rank;
  double factor;
};

struct Scenario {
  int eq{0}, method{0};
  bool simd{false};
  uint64_t salt{0};
  int rank{1};
  std::array<int, 3> ncell{1, 1, 1};
  std::array<double, 3> length{1, 1, 1};
  int max_levels{1};
  std::array<std::array<int, 3>, 4> ratio{}; // to coarser level
  std::array<bool, 3> periodic{true, true, true};
  int block0{8}, block{4};
  double p_refine{0.5};
  int period{1};
  int ghost{1};
  int split{0};
  bool any_split{false};
  bool source{false};
  int src_split{0};
  double src_strength{0};
  bool subcycle{true};
  int nranks{1};
  double final_time{1};
  std::ptrdiff_t max_cycles{-1};
  double eps{1e-12};
  double cfl{0.8};
  int do_backup{1};
  std::vector<OutputSpec> outputs;
  std::vector<std::ptrdiff_t> top_freq;
  std::vector<double> top_int;
  double start_time{0};
  std::ptrdiff_t start_cycles{0};
  std::vector<Fault> faults;
  int64_t ref_age_ns{0};
  int64_t step_cost_ns{0};
  std::string text() const;
};

// ------------------------------------------------------------------ records
struct PartialStep {
  int level, dir;
  double dt;       // step taken (flux computation)
  double bound;    // stable size on this rank
  int sub_first, sub_second;
};
struct CheckRec {
  int index; // flux computation it precedes
  int level, dir;
  double local;
  double about; // step announced by PreSplitStep (NaN: none)
};
struct LevelEnd {
  int level;
  double dt;
  int first, second;
  double time; // after the advance
  std::size_t nparts;
};
struct LevelBegin {
  int level;
  double dt;
  int first, second;
};
struct SourceCall {
  int level;
  double dt;
  bool ok;
  double err_dt;
};
struct Attempt {
  double t0{0};
  std::ptrdiff_t c0{0};
  double dt{0};
  bool ok{false};
  double err_dt{0};
  int err_level{-1};
  double own_failure_dt{-1}; // injected by PostAdvanceLevel
  int own_failure_level{-1};
  std::vector<PartialStep> parts;
  std::vector<CheckRec> checks;
  std::vector<LevelEnd> ends;
  std::vector<LevelBegin> begins;
  std::vector<SourceCall> sources;
  std::vector<int> op_order; // trace of (kind*100+level*10+dir)
  double requested{std::numeric_limits<double>::max()}; // by the outputs
  int ops_after_failure{0};
  bool op_failed{false};
};
struct Estimate {
  std::size_t attempt; // the attempt that follows
  double returned;
  double truth_local;
};
struct PatchSnap {
  int level;
  IBox box;
  std::vector<double> v;
};
struct LevelSnap {
  double time;
  std::ptrdiff_t cycles;
  std::vector<IBox> boxes;
};
struct Snapshot {
  std::vector<LevelSnap> levels;
  std::vector<PatchSnap> patches; // owned by the recording rank
  double src_phase{0};
  uint64_t hash() const;
};
struct Step {
  std::size_t attempt;
  double time;
  std::ptrdiff_t cycle;
  double dt_post; // argument of PostAdvanceHierarchy
  std::vector<double> ctx_times;
  Snapshot snap;
};
struct OutputCall {
  int id;
  std::ptrdiff_t cycle;
  double time;
  uint64_t hash;
  std::size_t steps; // accepted steps so far
  std::size_t attempts;
};
struct LogLine {
  std::string text;
  int64_t clock;
  std::size_t steps;
  std::size_t attempts;
};
struct RankRecord {
  std::vector<Attempt> attempts;
  std::vector<Estimate> estimates;
  std::vector<Step> steps;
  std::vector<OutputCall> outputs;
  std::vector<LogLine> lines;
  std::vector<std::string> post_hooks;
  std::vector<double> requested; // last answer of each output
  Snapshot initial;
  Snapshot final_state;
  double final_time{0};
  std::ptrdiff_t final_cycle{0};
  int64_t start_clock{0};
  int64_t ref_clock{0};
  int pre_hooks{0};
  bool finished{false};
  bool aborted{false};
};

/// State of the rank that the current thread simulates.
struct RankCtx {
  const Scenario* sc{nullptr};
  RankRecord* rec{nullptr};
  int rank{0};
  bool faults{true};
  bool in_advance{false};
  double announced{std::numeric_limits<double>::quiet_NaN()};
  int sub_first{0}, sub_second{1};
  std::vector<std::pair<int, int>> sub; // current substep of each level
  Attempt& attempt() { return rec->attempts.back(); }
};
extern thread_local RankCtx* g_rc;

// ------------------------------------------------------------------ grid
struct Patch {
  IBox box;
  int owner;
};
struct GridLevel {
  std::vector<Patch> patches;
  std::vector<Fab> data; // empty where another rank is the owner
  double time{0};
  std::ptrdiff_t cycles{0};
  double regrid_time{0};
};

class Grid;
struct HierarchyFacade {
  const Grid* grid;
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const;
};

class Grid {
public:
  Grid(const Scenario& sc, int rank, int nranks, MPI_Comm comm);
  Grid(const Grid&) = default;

  fub::Duration GetTimePoint() const { return fub::Duration(levels[0].time); }
  std::ptrdiff_t GetCycles() const { return levels[0].cycles; }
  HierarchyFacade GetPatchHierarchy() const { return {this}; }

  IBox domain(int level) const;
  double dx(int level, int dir) const;
  int total_ratio(int level) const;
  int num_levels() const { return static_cast<int>(levels.size()); }
  /// First level that changed (max_levels if none).
  int Regrid(int level);
  std::vector<Patch> MakeLayout(int level, uint64_t epoch) const;
  Fab Gather(const std::vector<Fab>& fabs, int level, int ncomp) const;
  Snapshot snapshot() const;

  const Scenario* sc;
  int rank, nranks;
  MPI_Comm comm;
  std::vector<GridLevel> levels;
  std::shared_ptr<fub::CounterRegistry> registry;
};

struct RegisterEntry {
  std::array<int, 3> cell;
  int dir, side;
  int coarse_patch, fine_patch;
  std::array<int, 3> fine_lo, fine_hi; // fine faces
};
struct LevelData {
  std::vector<Fab> scratch;
  std::vector<std::array<Fab, 3>> flux;
  std::vector<RegisterEntry> entries;
  std::vector<double> reg_fine, reg_coarse;
  double time{0};
  std::ptrdiff_t cycles{0};
};

struct ContextOptions {
  int regrid_frequency{1};
};

struct IntVect3 {
  std::array<int, 3> v;
  int max() const { return std::max(v[0], std::max(v[1], v[2])); }
  int operator[](int i) const { return v[static_cast<std::size_t>(i)]; }
};

class SimContext;
using SimMethod = fub::HyperbolicMethod<SimContext>;

class SimContext {
public:
  using FeedbackFn = int;
  SimContext(std::shared_ptr<Grid> grid, SimMethod method);
  SimContext(const SimContext& other);
  SimContext& operator=(const SimContext& other);
  SimContext(SimContext&&) = default;
  SimContext& operator=(SimContext&&) = default;

  const std::shared_ptr<Grid>& GetGriddingAlgorithm() const noexcept { return grid_; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const noexcept { return grid_->registry; }
  MPI_Comm GetMpiCommunicator() const noexcept { return grid_->comm; }
  const ContextOptions& GetOptions() const noexcept { return options_; }
  fub::Duration GetTimePoint(int level = 0) const;
  std::ptrdiff_t GetCycles(int level = 0) const;
  bool LevelExists(int level) const noexcept;
  IntVect3 GetRatioToCoarserLevel(int level) const noexcept;

  void ResetHierarchyConfiguration(int first_level = 0);
  void ResetHierarchyConfiguration(std::shared_ptr<Grid> grid);
  void PreAdvanceHierarchy();
  void PostAdvanceHierarchy(fub::Duration dt);
  int PreAdvanceLevel(int level, fub::Duration dt, std::pair<int, int> subcycle);
  fub::Result<void, fub::TimeStepTooLarge>
  PostAdvanceLevel(int level, fub::Duration dt, std::pair<int, int> subcycle);

  void FillGhostLayerSingleLevel(int level);
  void FillGhostLayerTwoLevels(int fine, int coarse);
  void ApplyBoundaryCondition(int level, fub::Direction dir);
  void PreSplitStep(int level, fub::Duration dt, fub::Direction dir, std::pair<int, int>);
  fub::Duration ComputeStableDt(int level, fub::Direction dir);
  void ComputeNumericFluxes(int level, fub::Duration dt, fub::Direction dir);
  void UpdateConservatively(int level, fub::Duration dt, fub::Direction dir);
  void CompleteFromCons(int level, fub::Duration dt);
  void CopyDataToScratch(int level);
  void CopyScratchToData(int level);
  void AccumulateCoarseFineFluxes(int level, double scale, fub::Direction dir);
  void ResetCoarseFineFluxes(int fine, int coarse);
  void ApplyFluxCorrection(int fine, int coarse, fub::Duration dt);
  void CoarsenConservatively(int fine, int coarse);

  // Harness side
  Grid& grid() { return *grid_; }
  const Grid& grid() const { return *grid_; }
  LevelData& data(int level) { return data_[static_cast<std::size_t>(level)]; }
  std::vector<int> owned(int level) const;
  /// Stable size on this rank by the kernel alone.
  double KernelStableDt(int level, int dir);
  void SetPreSplitHook() {}
  SimMethod& method() { return method_; }
  void RequireFilledGhosts(int level, const char* where);

private:
  void FillGhosts(int level, const Fab& same, const Fab* coarse,
                  std::vector<Fab>& scratch);
  void BuildRegister(int level);
  std::shared_ptr<Grid> grid_;
  std::vector<LevelData> data_;
  SimMethod method_;
  ContextOptions options_{};
};

/// Adapter between the kernels and fub::HyperbolicMethod, in the role of
/// FluxMethodAdapter, ForwardIntegrator and Reconstruction.
struct KernelMethod {
  std::shared_ptr<Kernel> k;
  KernelMethod(std::unique_ptr<Kernel> kernel) : k(std::move(kernel)) {}
  KernelMethod(const KernelMethod& o) : k(o.k->clone()) {}
  KernelMethod& operator=(const KernelMethod& o) {
    k = o.k->clone();
    return *this;
  }
  KernelMethod(KernelMethod&&) = default;
  KernelMethod& operator=(KernelMethod&&) = default;
  void PreAdvanceHierarchy(SimContext&) {}
  void PreSplitStep(SimContext&, int, fub::Duration, fub::Direction, std::pair<int, int>) {}
  fub::Duration ComputeStableDt(SimContext& c, int level, fub::Direction dir);
  void ComputeNumericFluxes(SimContext& c, int level, fub::Duration dt, fub::Direction dir);
  int GetStencilWidth() const { return k->width(); }
  void UpdateConservatively(SimContext& c, int level, fub::Duration dt, fub::Direction dir);
  void CompleteFromCons(SimContext& c, int level, fub::Duration dt);
};

/// A source term with internal state.
struct SimSource {
  static constexpr int Rank = 1;
  explicit SimSource(const Scenario& s) : sc(&s) {}
  fub::Duration ComputeStableDt(SimContext& ctx, int level);
  fub::Result<void, fub::TimeStepTooLarge> AdvanceLevel(SimContext& ctx, int level, fub::Duration dt);
  void PreAdvanceLevel(int, fub::Duration, std::pair<int, int>) {}
  void PreAdvanceHierarchy() {}
  void PostAdvanceHierarchy(fub::Duration dt);
  const Scenario* sc;
  double phase{0};
  long long calls{0};
};

/// Ends the run if the current property is prop, otherwise gives it up.
[[noreturn]] __attribute__((format(printf, 3, 4))) void
violate_for(const char* prop, const char* cls, const char* fmt, ...);

// ------------------------------------------------------------------ solvers
enum RunMode { ModeRunSimulation, ModeReplay, ModeReference };
/// Runs the program of one rank. dts is used by the replay modes.
void run_rank(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks,
              RunMode mode, const std::vector<double>& dts);
void run_rank_1(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks, RunMode mode, const std::vector<double>& dts);
void run_rank_2(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks, RunMode mode, const std::vector<double>& dts);
void run_rank_3(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks, RunMode mode, const std::vector<double>& dts);
