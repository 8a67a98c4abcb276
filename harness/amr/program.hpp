// The program of one rank, modelled on examples/AMReX.
#pragma once
#include "world.hpp"

#include "fub/AMReX/FluxMethodAdapter.hpp"
#include "fub/AMReX/ForEachFab.hpp"
#include "fub/AMReX/ForEachIndex.hpp"
#include "fub/AMReX/Reconstruction.hpp"
#include "fub/AMReX/TimeIntegrator.hpp"
#include "fub/AMReX/boundary_condition/BoundarySet.hpp"
#include "fub/AMReX/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/AMReX/boundary_condition/TransmissiveBoundary.hpp"
#include "fub/AMReX/tagging_method/ConstantRegion.hpp"
#include "fub/AMReX/tagging_method/GradientDetector.hpp"
#include "fub/AMReX/tagging_method/TagAllOf.hpp"
#include "fub/AMReX/tagging_method/TagBuffer.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"

namespace amr {
/// Smooth background, a jump and a blob, all functions of the position.
struct Profile {
  explicit Profile(const Config& c) : c_(c) {
    uint64_t x = c.data * 0x9E3779B97F4A7C15ull + 12345;
    for (double& r : r_) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      r = static_cast<double>(x >> 40) / static_cast<double>(1 << 24);
    }
  }
  double operator()(double x, double y) const {
    const double X = x / c_.lx + 0.5, Y = y / c_.ly;
    const double cx = 0.2 + 0.6 * r_[0], cy = 0.2 + 0.6 * r_[1], rad = 0.08 + 0.2 * r_[2];
    const double d2 = (X - cx) * (X - cx) + (Y - cy) * (Y - cy);
    const bool sharp = c_.data % 10 == 0; // exactly zero nearly everywhere
    double v = sharp ? 0.0 : 0.1 * std::sin(2 * M_PI * X + 6 * r_[3]) * std::cos(2 * M_PI * Y);
    if (sharp || r_[4] < 0.6) {
      v += d2 < rad * rad ? 1.0 : 0.0;
    } else {
      v += std::exp(-d2 / (rad * rad));
    }
    if (r_[5] < 0.3) {
      v += X + Y * (2 * r_[6] - 1) < 0.5 ? 0.4 : 0.0;
    }
    return c_.amplitude * v;
  }
  Config c_;
  double r_[7];
};

/// Refines a box that travels with the simulation time.
struct MovingBox {
  Config c;
  void TagCellsForRefinement(::amrex::TagBoxArray& tags, Grid& grid, int level, fub::Duration t) {
    const ::amrex::Geometry& geom = grid.GetPatchHierarchy().GetGeometry(level);
    const ::amrex::Box dom = geom.Domain();
    const double step = t.count() * 8.0 + static_cast<double>(c.data % 17) / 17.0;
    const double cx = std::fmod(step, 1.0), cy = std::fmod(step * 0.6 + 0.3, 1.0);
    fub::amrex::ForEachFab(tags, [&](const ::amrex::MFIter& mfi) {
      fub::amrex::ForEachIndex(mfi.tilebox(), [&](auto... is) {
        const ::amrex::IntVect iv{int(is)...};
        if (!dom.contains(iv)) {
          return;
        }
        const double X = (iv[0] + 0.5) / dom.length(0), Y = (iv[1] + 0.5) / dom.length(1);
        if (std::abs(X - cx) < 0.15 && std::abs(Y - cy) < 0.15 / (level + 1)) {
          tags[mfi](iv, 0) = '\1';
        }
      });
    });
  }
};

/// Calls the tagging method and shows the result to the harness.
struct ObservedTagging {
  fub::amrex::AnyTaggingMethod inner;
  std::function<void(const ::amrex::TagBoxArray&, const Grid&, int level)> tagged;
  void TagCellsForRefinement(::amrex::TagBoxArray& tags, Grid& grid, int level, fub::Duration t) {
    inner.TagCellsForRefinement(tags, grid, level, t);
    if (tagged) {
      tagged(tags, grid, level);
    }
  }
};

/// The context, observed.
struct Context : fub::amrex::IntegratorContext {
  Context(fub::amrex::IntegratorContext c, const Hooks* h) : fub::amrex::IntegratorContext(std::move(c)), hooks(h) {}
  int PreAdvanceLevel(int level, fub::Duration dt, std::pair<int, int> subcycle) {
    if (level == 0 && hooks->attempt) {
      hooks->attempt(dt);
    }
    if (hooks->before_regrid) {
      hooks->before_regrid(*this, level);
    }
    const int r = fub::amrex::IntegratorContext::PreAdvanceLevel(level, dt, subcycle);
    if (hooks->after_regrid) {
      hooks->after_regrid(*this, level);
    }
    return r;
  }
  void PreAdvanceHierarchy() {
    fub::amrex::IntegratorContext::PreAdvanceHierarchy();
    if (hooks->before_step) {
      hooks->before_step(*this);
    }
  }
  fub::Duration ComputeStableDt(int level, fub::Direction dir) {
    const fub::Duration dt = fub::amrex::IntegratorContext::ComputeStableDt(level, dir);
    return hooks->stable_dt ? hooks->stable_dt(level, dir, dt) : dt;
  }
  const Hooks* hooks;
};

struct HookOutput : fub::BasicOutput<Grid> {
  explicit HookOutput(const Hooks* h) : hooks(h) {}
  fub::Duration NextOutputTime(fub::Duration t) override {
    fub::Duration next(std::numeric_limits<double>::max());
    for (auto& o : hooks->outputs) {
      next = std::min(next, o->NextOutputTime(t));
    }
    return next;
  }
  bool ShallOutputNow(const Grid&) override { return true; }
  void operator()(const Grid& grid) override {
    if (hooks->output) {
      hooks->output(grid);
    }
    for (auto& o : hooks->outputs) {
      if (o->ShallOutputNow(grid)) {
        (*o)(grid);
      }
    }
  }
  const Hooks* hooks;
};

template <typename Eq, typename Tag, typename Flux, typename Detector>
void run_program(const Config& c, const Hooks& h, const Eq& eq, Tag tag, const Flux& flux, const Detector& gradient, fub::amrex::AnyInitialData initial) {
  using namespace fub::amrex;
  BoundarySet boundaries;
  for (int k = 0; k < 4; ++k) {
    const int d = (k / 2) ^ (c.bc_order & 1), side = (k % 2) ^ (c.bc_order >> 1);
    const auto dir = static_cast<fub::Direction>(d);
    if (c.bc[d][side] == 1) {
      if constexpr (!std::is_same_v<Eq, fub::Advection2d>) {
        boundaries.conditions.push_back(ReflectiveBoundary(fub::execution::seq, eq, dir, side));
      }
    } else if (c.bc[d][side] == 2) {
      boundaries.conditions.push_back(TransmissiveBoundary{dir, side});
    }
  }
  AnyTaggingMethod tagging = TagAllOf(gradient, TagBuffer(c.buffer));
  if (c.tag == 1) {
    tagging = gradient;
  } else if (c.tag == 2) {
    const int x = static_cast<int>(c.data % static_cast<uint64_t>(c.nx)), y = static_cast<int>(c.data / 64 % static_cast<uint64_t>(c.ny));
    tagging = ConstantBox(::amrex::Box(::amrex::IntVect(x, y), ::amrex::IntVect(std::min(x + 2 + c.buffer, c.nx - 1), std::min(y + 4, c.ny - 1))));
  } else if (c.tag == 3) {
    tagging = MovingBox{c};
  }
  tagging = ObservedTagging{std::move(tagging), h.tagged};
  std::shared_ptr<GriddingAlgorithm> grid;
  if (h.restart_from.empty()) {
    grid = std::make_shared<GriddingAlgorithm>(PatchHierarchy(eq, grid_geometry(c), hierarchy_options(c)), std::move(initial), std::move(tagging),
                                               boundaries);
    grid->InitializeHierarchy(0.0);
  } else {
    PatchHierarchy hier = ReadCheckpointFile(h.restart_from, MakeDataDescription(eq), grid_geometry(c), hierarchy_options(c));
    grid = std::make_shared<GriddingAlgorithm>(std::move(hier), std::move(initial), std::move(tagging), boundaries);
  }
  IntegratorContextOptions options{};
  options.scratch_gcw = flux.GetStencilWidth() * (c.split ? 4 : 2);
  options.flux_gcw = flux.GetStencilWidth() * (c.split ? 3 : 1);
  options.regrid_frequency = c.regrid_frequency;
  HookOutput output{&h};
  auto go = [&](auto reconstruction) {
    HyperbolicMethod method{FluxMethodAdapter(tag, flux), EulerForwardTimeIntegrator(tag), reconstruction};
    auto run = [&](auto splitting) {
      auto level = fub::DimensionalSplitLevelIntegrator(fub::int_c<2>, Context(IntegratorContext(grid, method, options), &h), splitting);
      auto simulate = [&](auto solver) {
        output(*solver.GetGriddingAlgorithm());
        for (fub::Duration dt : h.steps) {
          solver.PreAdvanceHierarchy();
          solver.ComputeStableDt();
          if (!solver.AdvanceHierarchy(dt)) {
            sim::violate("accepted-step-rejected", "a step of %.17g s, which was accepted, is rejected when it is repeated", dt.count());
          }
          solver.PostAdvanceHierarchy(dt);
          output(*solver.GetGriddingAlgorithm());
        }
        if (!h.steps.empty()) {
          return;
        }
        fub::RunOptions options{};
        options.final_time = fub::Duration(1e9);
        options.max_cycles = h.max_cycles;
        options.cfl = c.cfl;
        fub::RunSimulation(solver, options, std::chrono::steady_clock::now(), output);
      };
      if (c.subcycle) {
        simulate(fub::SubcycleFineFirstSolver(std::move(level)));
      } else {
        simulate(fub::NoSubcycleSolver(std::move(level)));
      }
    };
    if (c.split) {
      run(fub::StrangSplitting());
    } else {
      run(fub::GodunovSplitting());
    }
  };
  if constexpr (std::is_same_v<Eq, fub::Advection2d>) {
    go(NoReconstruction{});
  } else {
    go(Reconstruction(tag, eq));
  }
}
void program_advection(const Config& c, const Hooks& h);
void program_gas(const Config& c, const Hooks& h);
} // namespace amr
