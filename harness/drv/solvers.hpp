// Assembly of the repository's solver stack on top of SimContext.
#pragma once
#include "world.hpp"

#include "fub/RunSimulation.hpp"
#include "fub/ext/ProgramOptions.hpp"
#include "fub/output/BasicOutput.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

enum { SplitGodunov, SplitStrang, SplitLumped };
struct SplitCall {
  int op;
  double dt;
};
/// The documented sequence of calls of a splitting method.
std::vector<SplitCall> split_sequence(int split, int nops, double dt);

SimContext make_context(const Scenario& sc, int rank, int nranks, MPI_Comm comm);

struct Reference {
  Reference(const Scenario& sc, int rank, int nranks, MPI_Comm comm);
  void Step(double dt);
  void Level(int level, double dt, std::pair<int, int> sub);
  void System(int level, double dt, std::pair<int, int> sub);
  const Scenario& sc;
  SimContext ctx;
  SimSource source;
};

std::unique_ptr<fub::BasicOutput<Grid>> make_outputs(const Scenario& sc,
                                                     std::chrono::steady_clock::time_point ref);
void set_attempt_begin(double t0, std::ptrdiff_t c0, double dt);

/// What the checks need to know about every call RunSimulation makes.
template <typename S, bool HasSource> struct Recorded : S {
  explicit Recorded(S s) : S(std::move(s)) {}

  double phase() {
    if constexpr (HasSource) {
      return S::GetLevelIntegrator().GetSource().phase;
    } else {
      return 0.0;
    }
  }

  void PreAdvanceHierarchy() {
    if (g_rc->rec) {
      g_rc->rec->pre_hooks += 1;
    }
    S::PreAdvanceHierarchy();
  }

  fub::Duration ComputeStableDt() {
    const fub::Duration dt = S::ComputeStableDt();
    SimContext& ctx = S::GetContext();
    double truth = std::numeric_limits<double>::max();
    for (int l = 0; ctx.LevelExists(l); ++l) {
      double m = std::numeric_limits<double>::max();
      for (int d = 0; d < g_rc->sc->rank; ++d) {
        m = std::min(m, ctx.KernelStableDt(l, d));
      }
      if constexpr (HasSource) {
        m = std::min(m, S::GetLevelIntegrator().GetSource().ComputeStableDt(ctx, l).count());
      }
      truth = std::min(truth, m * (g_rc->sc->subcycle ? ctx.grid().total_ratio(l) : 1));
    }
    if (g_rc->rec) {
      g_rc->rec->estimates.push_back({g_rc->rec->attempts.size(), dt.count(), truth});
    }
    return dt;
  }

  auto AdvanceHierarchy(fub::Duration dt) {
    g_rc->rec->attempts.emplace_back();
    Attempt& a = g_rc->attempt();
    a.t0 = S::GetTimePoint().count();
    a.c0 = S::GetCycles();
    a.dt = dt.count();
    for (double x : g_rc->rec->requested) {
      a.requested = std::min(a.requested, x);
    }
    g_rc->sub.clear();
    g_rc->in_advance = true;
    auto result = S::AdvanceHierarchy(dt);
    g_rc->in_advance = false;
    Attempt& b = g_rc->attempt();
    b.ok = result.has_value();
    if (!b.ok) {
      b.err_dt = result.error().dt.count();
      b.err_level = result.error().level;
    }
    return result;
  }

  void PostAdvanceHierarchy(fub::Duration dt) {
    S::PostAdvanceHierarchy(dt);
    Step st;
    st.attempt = g_rc->rec->attempts.size() - 1;
    st.time = S::GetTimePoint().count();
    st.cycle = S::GetCycles();
    st.dt_post = dt.count();
    for (int l = 0; S::GetContext().LevelExists(l); ++l) {
      st.ctx_times.push_back(S::GetContext().GetTimePoint(l).count());
    }
    st.snap = S::GetGriddingAlgorithm()->snapshot();
    st.snap.src_phase = phase();
    g_rc->rec->steps.push_back(std::move(st));
  }
};

template <bool HasSource, typename S>
void drive(S base, const Scenario& sc, RunMode mode, const std::vector<double>& dts) {
  RankRecord& rec = *g_rc->rec;
  Recorded<S, HasSource> solver(std::move(base));
  rec.initial = solver.GetGriddingAlgorithm()->snapshot();
  const auto now = std::chrono::steady_clock::now();
  const auto ref = now - std::chrono::nanoseconds(sc.ref_age_ns);
  rec.ref_clock = ref.time_since_epoch().count();
  if (mode == ModeRunSimulation) {
    std::unique_ptr<fub::BasicOutput<Grid>> output = make_outputs(sc, ref);
    (*output)(*solver.GetGriddingAlgorithm());
    fub::RunOptions options{};
    options.final_time = fub::Duration(sc.final_time);
    options.max_cycles = sc.max_cycles;
    options.smallest_time_step_size = fub::Duration(sc.eps);
    options.cfl = sc.cfl;
    options.do_backup = sc.do_backup;
    rec.start_clock = std::chrono::steady_clock::now().time_since_epoch().count();
    fub::RunSimulation(solver, options, ref, *output);
  } else {
    for (double dt : dts) {
      solver.PreAdvanceHierarchy();
      (void)solver.ComputeStableDt();
      auto result = solver.AdvanceHierarchy(fub::Duration(dt));
      if (!result) {
        rec.aborted = true;
        break;
      }
      solver.PostAdvanceHierarchy(fub::Duration(dt));
    }
  }
  rec.final_state = solver.GetGriddingAlgorithm()->snapshot();
  rec.final_state.src_phase = solver.phase();
  rec.final_time = solver.GetTimePoint().count();
  rec.final_cycle = solver.GetCycles();
  rec.finished = true;
}

template <bool HasSource, typename L>
void drive_level(L integrator, const Scenario& sc, RunMode mode, const std::vector<double>& dts) {
  if (sc.subcycle) {
    drive<HasSource>(fub::SubcycleFineFirstSolver<L>(std::move(integrator)), sc, mode, dts);
  } else {
    drive<HasSource>(fub::NoSubcycleSolver<L>(std::move(integrator)), sc, mode, dts);
  }
}

inline fub::AnySplitMethod any_split(int split) {
  switch (split) {
  case SplitGodunov:
    return fub::GodunovSplitting();
  case SplitStrang:
    return fub::StrangSplitting();
  default:
    return fub::StrangSplittingLumped();
  }
}

template <int R, typename Split>
void drive_split(Split split, const Scenario& sc, int rank, int nranks, MPI_Comm comm,
                 RunMode mode, const std::vector<double>& dts) {
  using L = fub::DimensionalSplitLevelIntegrator<R, SimContext, Split>;
  L level(make_context(sc, rank, nranks, comm), split);
  if (!sc.source) {
    drive_level<false>(std::move(level), sc, mode, dts);
  } else {
    using LS = fub::SplitSystemSourceLevelIntegrator<L, SimSource, fub::AnySplitMethod>;
    drive_level<true>(LS(std::move(level), SimSource(sc), any_split(sc.src_split)), sc, mode, dts);
  }
}
