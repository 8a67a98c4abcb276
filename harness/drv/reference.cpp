// Executable reference for one coarse time step: the textbook recursion with
// flux correction, written independently of the solver classes.
#include "solvers.hpp"

namespace {
std::size_t S(int i) { return static_cast<std::size_t>(i); }
}

std::vector<SplitCall> split_sequence(int split, int nops, double dt) {
  std::vector<SplitCall> r;
  const double h = 0.5 * dt;
  if (nops == 1) {
    return {{0, dt}};
  }
  switch (split) {
  case SplitGodunov:
    for (int i = 0; i < nops; ++i) {
      r.push_back({i, dt});
    }
    break;
  case SplitStrang:
    for (int i = 0; i < nops; ++i) {
      r.push_back({i, h});
    }
    for (int i = nops - 1; i >= 0; --i) {
      r.push_back({i, h});
    }
    break;
  default:
    for (int i = 0; i < nops - 1; ++i) {
      r.push_back({i, h});
    }
    r.push_back({nops - 1, dt});
    for (int i = nops - 2; i >= 0; --i) {
      r.push_back({i, h});
    }
  }
  return r;
}

Reference::Reference(const Scenario& s, int rank, int nranks, MPI_Comm comm)
    : sc(s), ctx(make_context(s, rank, nranks, comm)), source(s) {}

void Reference::System(int level, double dt, std::pair<int, int> sub) {
  const auto seq = split_sequence(sc.split, sc.rank, dt);
  const int odd = static_cast<int>((ctx.GetCycles(0) % 2 + sub.first) % 2);
  std::array<int, 3> calls{0, 0, 0};
  for (const SplitCall& c : seq) {
    const int d = odd ? sc.rank - 1 - c.op : c.op;
    const auto dir = static_cast<fub::Direction>(d);
    if (calls[S(d)]++ > 0) {
      ctx.ApplyBoundaryCondition(level, dir);
    }
    const fub::Duration step(c.dt);
    ctx.method().flux_method.ComputeNumericFluxes(ctx, level, step, dir);
    ctx.method().time_integrator.UpdateConservatively(ctx, level, step, dir);
    ctx.CompleteFromCons(level, step);
    ctx.AccumulateCoarseFineFluxes(level, c.dt, dir);
  }
}

void Reference::Level(int level, double dt, std::pair<int, int> sub) {
  const fub::Duration step(dt);
  ctx.PreAdvanceLevel(level, step, sub);
  for (int l = level; ctx.LevelExists(l); ++l) {
    if (l == 0) {
      ctx.FillGhostLayerSingleLevel(0);
    } else {
      ctx.FillGhostLayerTwoLevels(l, l - 1);
    }
  }
  const int fine = level + 1;
  if (ctx.LevelExists(fine)) {
    ctx.ResetCoarseFineFluxes(fine, level);
    const int n = sc.subcycle ? ctx.GetRatioToCoarserLevel(fine).max() : 1;
    for (int r = 0; r < n; ++r) {
      Level(fine, dt / n, {r, n});
    }
  }
  if (!sc.source) {
    System(level, dt, sub);
  } else {
    for (const SplitCall& c : split_sequence(sc.src_split, 2, dt)) {
      if (c.op == 0) {
        (void)source.AdvanceLevel(ctx, level, fub::Duration(c.dt));
      } else {
        System(level, c.dt, sub);
      }
    }
  }
  if (ctx.LevelExists(fine)) {
    ctx.ApplyFluxCorrection(fine, level, step);
    ctx.CoarsenConservatively(fine, level);
    ctx.CompleteFromCons(level, step);
  }
  ctx.CopyScratchToData(level);
  (void)ctx.PostAdvanceLevel(level, step, sub);
}

void Reference::Step(double dt) {
  ctx.PreAdvanceHierarchy();
  Level(0, dt, {0, 1});
  ctx.PostAdvanceHierarchy(fub::Duration(dt));
}
