#include "tube.hpp"
#include "program.hpp"

#include "fub/AMReX/AxialFluxMethodAdapter.hpp"
#include "fub/AMReX/AxialTimeIntegrator.hpp"
#include "fub/AMReX/DiffusionSourceTerm.hpp"
#include "fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp"
#include "fub/AMReX/boundary_condition/IsentropicPressureExpansion.hpp"
#include "fub/AMReX/boundary_condition/TurbinePlenumBoundaryCondition.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/perfect_gas_mix/ArrheniusKinetics.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/PlenaControlFeedback.hpp"
#include "fub/equations/perfect_gas_mix/PlenaControlOutput.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <fstream>
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <sstream>
#include <sys/stat.h>

namespace amr {
namespace {
using Gas = fub::PerfectGasMix<1>;
using Complete = fub::Complete<Gas>;
const fub::PerfectGasConstants constants{1.0, 1.4};
Gas equation() { return Gas{constants, 1, 1}; }

double ratio_of_rpm(const gt::ControlOptions& o, double rpm) {
  return o.pratiomean + o.c_0 * o.pratiovar * std::atan(M_PI * (rpm / o.rpmmean - 1.0)) / M_PI;
}

double initial_rpm(const Tube& t, const gt::ControlOptions& o) { return o.rpmmin + t.spin * (o.rpmmax - o.rpmmin); }

struct Initial {
  Tube t;
  void InitializeData(fub::amrex::PatchLevel& level, const Grid& grid, int l, fub::Duration) const {
    const Config& c = t.grid;
    const ::amrex::Geometry& geom = grid.GetPatchHierarchy().GetGeometry(l);
    const Gas eq = equation();
    const double pc = ratio_of_rpm(control_options(t), initial_rpm(t, control_options(t)));
    fub::amrex::ForEachFab(level.data, [&](const ::amrex::MFIter& mfi) {
      auto states = fub::amrex::MakeView<Complete>(level.data[mfi], eq, mfi.tilebox());
      fub::ForEachIndex(fub::Box<0>(states), [&](std::ptrdiff_t i) {
        double x[2];
        geom.CellCenter({int(i), 0}, x);
        const double s = x[0] / c.lx + 0.5, at = (t.step_at + 0.01) / c.nx;
        const double p = pc * (t.pressure + (s > at ? t.step : 0.0) + 0.05 * c.amplitude * std::sin(9 * s + static_cast<double>(c.data % 64)));
        const double T = t.temperature * (1 + 0.3 * c.amplitude * std::exp(-100 * (s - 0.7) * (s - 0.7)));
        const double rho = p / T;
        const double u = t.velocity * std::sin(M_PI * s);
        fub::Conservative<Gas> cons(eq);
        cons.density = rho;
        cons.momentum[0] = rho * u;
        cons.energy = p * eq.gamma_minus_one_inv + 0.5 * eq.Msq * rho * u * u;
        cons.species[0] = s < t.filled ? rho : 0.0;
        cons.passive_scalars[0] = rho * s;
        Complete state(eq);
        eq.CompleteFromCons(state, cons);
        fub::Store(states, state, {i});
      });
    });
  }
};

/// What happens at the inlet during one fill.
struct Inflow {
  bool called = false;
  double inner_pressure = 0;
  fub::Duration t_diff{};
  gt::PlenumState compressor{};
};
struct Observed {
  Inflow inflow;
  std::optional<fub::Duration> t_opened;
};

struct InflowFunction {
  Tube t;
  std::shared_ptr<Observed> seen;
  void operator()(const Gas& eq, Complete& state, const gt::PlenumState& compressor, double inner_pressure, fub::Duration t_diff,
                  const ::amrex::MultiFab&, const Grid&, int) const {
    seen->inflow = {true, inner_pressure, t_diff, compressor};
    state = StateFor(eq, compressor, inner_pressure, t_diff);
  }
  Complete StateFor(const Gas& eq, const gt::PlenumState& compressor, double pin, fub::Duration t_diff) const {
    const double ppv = compressor.pressure, Tpv = compressor.temperature;
    const double Tin = Tpv * std::pow(pin / ppv, eq.gamma_minus_one_over_gamma);
    const double u = std::sqrt(2.0 * eq.gamma_over_gamma_minus_one * std::max(0.0, Tpv - Tin)) / std::sqrt(eq.Msq);
    double rho = ppv / Tpv * std::pow(pin / ppv, eq.gamma_inv);
    if (compressor.SEC_Mode) {
      rho *= 1.0 + 0.2 * std::min(1.0, t_diff.count() * t.grid.nx);
    }
    fub::Conservative<Gas> cons(eq);
    cons.density = rho;
    cons.momentum[0] = rho * u;
    cons.energy = pin * eq.gamma_minus_one_inv + 0.5 * eq.Msq * rho * u * u;
    cons.species[0] = t_diff.count() < t.delay ? 0.0 : rho;
    cons.passive_scalars[0] = rho * t_diff.count();
    Complete state(eq);
    eq.CompleteFromCons(state, cons);
    return state;
  }
};

/// What the documentation of the valves says.
std::optional<fub::Duration> valve_model(int kind, std::optional<fub::Duration> t_opened, double p, const gt::PlenumState& compressor, fub::Duration now) {
  const double closes = kind == 3 ? 1.1 * compressor.pressure : compressor.pressure;
  if (kind == 0 || (kind == 1 && !compressor.SEC_Mode)) {
    return now;
  }
  if (!t_opened && p <= compressor.pressure) {
    return now;
  }
  if (p > closes) {
    return std::nullopt;
  }
  return t_opened;
}
bool blocked_model(int kind, double p, const gt::PlenumState& compressor) {
  return kind != 0 && (kind != 1 || compressor.SEC_Mode) && p > compressor.pressure;
}

template <typename Valve> struct ObservedValve {
  Valve valve;
  Tube t;
  std::shared_ptr<Observed> seen;
  InflowFunction inflow;
  std::shared_ptr<const gt::ControlState> control;
  std::optional<fub::Duration> model{};

  void FillBoundary(::amrex::MultiFab& mf, const Grid& grid, int level, fub::Direction dir) {
    if (dir == fub::Direction::X) {
      FillBoundary(mf, grid, level);
    }
  }
  void FillBoundary(::amrex::MultiFab& mf, const Grid& grid, int level) {
    const ::amrex::Box domain = grid.GetPatchHierarchy().GetGeometry(level).Domain();
    const ::amrex::IntVect first = domain.smallEnd();
    const Gas eq = equation();
    const fub::IndexMapping<Gas> at{eq};
    double mine[4] = {0, 0, 0, 0}, all[4]; // sum and number of valid cells and of their copies
    for (::amrex::MFIter mfi(mf); mfi.isValid(); ++mfi) {
      if (mf[mfi].box().contains(first)) {
        const int k = mfi.validbox().contains(first) ? 0 : 2;
        mine[k] += mf[mfi](first, at.pressure);
        mine[k + 1] += 1;
      }
    }
    ::MPI_Allreduce(mine, all, 4, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    const gt::PlenumState compressor = control->compressor;
    const fub::Duration now = grid.GetTimePoint();
    const bool covers = all[1] + all[3] > 0;
    const double p = all[1] > 0 ? all[0] / all[1] : covers ? all[2] / all[3] : 0.0;
    const std::optional<fub::Duration> before = model;
    if (covers) {
      model = valve_model(t.valve, model, p, compressor, now);
    }
    seen->inflow.called = false;
    valve.FillBoundary(mf, grid, level);
    const std::optional<fub::Duration> after = valve.GetTimePointWhenOpened();
    seen->t_opened = after;
    auto text = [](const std::optional<fub::Duration>& d) { return d ? "open since " + std::to_string(d->count()) : std::string("closed"); };
    if (after != model) {
      sim::violate("wrong-valve-state", "rank %d, level %d, time %.17g: the valve is %s; it was %s, the pressure behind it is %s%.17g and that of the compressor %.17g",
                   sim::current_rank(), level, now.count(), text(after).c_str(), text(before).c_str(), covers ? "" : "unknown, not ", p, compressor.pressure);
    }
    if (!covers) {
      sim::count("fills away from the inlet");
      return;
    }
    if (before.has_value() != model.has_value()) {
      sim::count(model ? "valve opens" : "valve closes");
    }
    const bool closed = blocked_model(t.valve, p, compressor);
    sim::count(closed ? "fills with a closed valve" : "fills with an open valve");
    const Complete in = closed ? Complete(eq) : inflow.StateFor(eq, compressor, p, now - *model);
    if (!closed && (!seen->inflow.called || seen->inflow.inner_pressure != p || seen->inflow.t_diff != now - *model || seen->inflow.compressor.pressure != compressor.pressure)) {
      sim::violate("wrong-inflow", "rank %d, level %d, time %.17g: the inflow is computed for pressure %.17g and %.17g s after opening, not for %.17g and %.17g s",
                   sim::current_rank(), level, now.count(), seen->inflow.inner_pressure, seen->inflow.t_diff.count(), p, (now - *model).count());
    }
    for (::amrex::MFIter mfi(mf); mfi.isValid(); ++mfi) {
      const ::amrex::FArrayBox& fab = mf[mfi];
      for (int i = fab.box().smallEnd(0); i < domain.smallEnd(0); ++i) {
        const ::amrex::IntVect ghost(i, 0), mirror(2 * domain.smallEnd(0) - 1 - i, 0);
        if (!fab.box().contains(ghost)) {
          continue;
        }
        auto want = [&](int comp, double open) {
          if (!closed) {
            return open;
          }
          const double v = fab(mirror, comp);
          return comp == at.momentum[0] ? -v : v;
        };
        if (closed && !fab.box().contains(mirror)) {
          continue;
        }
        const std::pair<int, double> comps[] = {{at.density, in.density},       {at.momentum[0], in.momentum[0]}, {at.energy, in.energy},
                                                {at.species[0], closed ? 0.0 : in.species[0]}, {at.pressure, in.pressure}};
        for (auto [comp, open] : comps) {
          const double got = fab(ghost, comp), expected = want(comp, open);
          if (!(std::abs(got - expected) <= 1e-13 * (1 + std::abs(expected)))) {
            sim::violate("wrong-ghost-cell", "rank %d, level %d, time %.17g: component %d of cell %d behind the %s valve is %.17g instead of %.17g",
                         sim::current_rank(), level, now.count(), comp, i, closed ? "closed" : "open", got, expected);
          }
        }
      }
    }
  }
};

/// An outlet into a plenum, observed.
template <typename Outlet> struct ObservedOutlet {
  Outlet outlet;
  Tube t;
  std::shared_ptr<const gt::ControlState> control;

  void FillBoundary(::amrex::MultiFab& mf, const Grid& grid, int level, fub::Direction dir) {
    if (dir == fub::Direction::X) {
      FillBoundary(mf, grid, level);
    }
  }
  void FillBoundary(::amrex::MultiFab& mf, const Grid& grid, int level) {
    const ::amrex::Box domain = grid.GetPatchHierarchy().GetGeometry(level).Domain();
    const ::amrex::IntVect last(domain.bigEnd(0), domain.smallEnd(1));
    const Gas eq = equation();
    const fub::IndexMapping<Gas> at{eq};
    outlet.FillBoundary(mf, grid, level);
    const bool turbine = t.outlet == 0;
    const double P = turbine ? control->turbine.pressure : control_options(t).initial_turbine_state.pressure;
    for (::amrex::MFIter mfi(mf); mfi.isValid(); ++mfi) {
      const ::amrex::FArrayBox& fab = mf[mfi];
      for (int i = domain.bigEnd(0) + 1; i <= fab.box().bigEnd(0); ++i) {
        const ::amrex::IntVect ghost(i, domain.smallEnd(1));
        const ::amrex::IntVect from = turbine ? last : ::amrex::IntVect(2 * domain.bigEnd(0) + 1 - i, domain.smallEnd(1));
        if (!fab.box().contains(from)) {
          sim::harness_error("ghost cell %d without cell %d", i, from[0]);
        }
        const double rho = fab(from, at.density), u = fab(from, at.momentum[0]) / rho, p = fab(from, at.pressure), Y = fab(from, at.species[0]) / rho;
        const double expansion = std::pow(P / p, 1 / 1.4), heating = P / p / expansion;
        double want_p = P, want_rho = rho * expansion, want_u = u;
        if (turbine && P > p) {
          sim::count(u <= 0 ? "fills with flow out of the turbine's plenum" : "fills with flow against the turbine's pressure");
          const double work = 7 * (heating - 1) * p / rho; // 2 gamma / (gamma - 1)
          if (u <= 0) {
            want_p = p;
            want_rho = P / control->turbine.temperature / expansion;
            want_u = -std::sqrt(work);
          } else {
            want_u = std::sqrt(std::max(0.0, u * u - work));
          }
        } else if (turbine) {
          want_u = std::max(u, 0.0);
        }
        const std::pair<double, double> pairs[] = {
            {fab(ghost, at.pressure), want_p},
            {fab(ghost, at.density), want_rho},
            {fab(ghost, at.species[0]), want_rho * Y},
            {fab(ghost, at.momentum[0]), want_rho * want_u},
            {fab(ghost, at.energy), want_p / 0.4 + 0.5 * fab(ghost, at.momentum[0]) * fab(ghost, at.momentum[0]) / fab(ghost, at.density)}};
        const char* names[] = {"pressure", "density", "fuel density", "momentum", "energy"};
        for (int k = 0; k < 5; ++k) {
          if ((turbine || k != 3) && !(std::abs(pairs[k].first - pairs[k].second) <= 1e-9 * (1 + std::abs(pairs[k].second)))) {
            sim::violate("wrong-outlet", "rank %d, level %d: the %s of cell %d is %.17g instead of %.17g; the pressure behind is %.17g and the last cell has %.17g, %.17g, %.17g",
                         sim::current_rank(), level, names[k], i, pairs[k].first, pairs[k].second, P, p, rho, u);
          }
        }
      }
    }
  }
};

/// The control of the example, observed.
struct Feedback {
  gt::ControlFeedback<1> feedback;
  std::shared_ptr<const gt::ControlState> state;
  Tube t;
  const TubeHooks* h;
  void operator()(fub::amrex::IntegratorContext& context, fub::Duration dt) {
    const gt::ControlState before = *state;
    const Gas eq = equation();
    const fub::IndexMapping<Gas> at{eq};
    const ::amrex::MultiFab& fluxes = context.GetFluxes(0, fub::Direction::X);
    const ::amrex::Box domain = context.GetGeometry(0).Domain();
    const ::amrex::IntVect first = domain.smallEnd(), last(domain.bigEnd(0) + 1, 0);
    double mine[8] = {}, f[8] = {};
    for (::amrex::MFIter mfi(fluxes); mfi.isValid(); ++mfi) {
      if (mfi.validbox().contains(first)) {
        mine[0] = fluxes[mfi](first, at.density);
        mine[1] = fluxes[mfi](first, at.species[0]);
        mine[6] = fluxes[mfi](first, at.energy);
        mine[4] += 1;
      }
      if (mfi.validbox().contains(last)) {
        mine[2] = fluxes[mfi](last, at.density);
        mine[3] = fluxes[mfi](last, at.energy);
        mine[7] = fluxes[mfi](last, at.species[0]);
        mine[5] += 1;
      }
    }
    ::MPI_Allreduce(mine, f, 8, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    if (f[4] != 1 || f[5] != 1) {
      sim::harness_error("boundary faces found %g and %g times", f[4], f[5]);
    }
    feedback(context, dt);
    const gt::ControlState want = control_model(t, before, f[0], f[1], f[2], f[3], dt.count());
    const auto got = fields(*state);
    for (const auto& [name, value] : fields(want)) {
      // The efficiency may divide by next to no fuel.
      if (!(std::abs(got.at(name) - value) <= (name == "efficiency" ? 1e-6 : 1e-9) * (1e-3 + std::abs(value)))) {
        sim::violate("wrong-control", "rank %d: after a step of %.17g s %s is %.17g instead of %.17g", sim::current_rank(), dt.count(), name.c_str(), got.at(name), value);
      }
    }
    if (h->feedback) {
      h->feedback(dt, before, *state, Ends{{f[0], f[1], f[6]}, {f[2], f[7], f[3]}});
    }
  }
};

struct UserStableDt {
  double cfl_like;
  fub::Duration operator()(fub::amrex::IntegratorContext& context, int level, fub::Direction) const {
    const Gas eq = equation();
    const fub::IndexMapping<Gas> at{eq};
    const ::amrex::MultiFab& scratch = context.GetScratch(level);
    double amax = 0.0;
    fub::amrex::ForEachFab(scratch, [&](const ::amrex::MFIter& mfi) {
      for (int i = mfi.validbox().smallEnd(0); i <= mfi.validbox().bigEnd(0); ++i) {
        const ::amrex::IntVect iv(i, 0);
        const double rho = scratch[mfi](iv, at.density);
        amax = std::max(amax, std::abs(scratch[mfi](iv, at.momentum[0])) / rho + std::sqrt(eq.gamma * scratch[mfi](iv, at.pressure) / rho));
      }
    });
    return fub::Duration(cfl_like * context.GetGeometry(level).CellSize(0) / std::max(amax, 1e-12));
  }
};

struct EndTagging {
  Config c;
  void TagCellsForRefinement(::amrex::TagBoxArray& tags, Grid& grid, int level, fub::Duration t) {
    const ::amrex::Box dom = grid.GetPatchHierarchy().GetGeometry(level).Domain();
    const double centre = std::fmod(t.count() * 8.0 + static_cast<double>(c.data % 17) / 17.0, 1.0);
    fub::amrex::ForEachFab(tags, [&](const ::amrex::MFIter& mfi) {
      const ::amrex::Box box = mfi.tilebox() & dom;
      for (int i = box.smallEnd(0); i <= box.bigEnd(0); ++i) {
        if (std::abs((i + 0.5) / dom.length(0) - centre) < 0.15) {
          tags[mfi](::amrex::IntVect(i, 0), 0) = '\1';
        }
      }
    });
  }
};

void write_checkpoint(const std::string& dir, const Grid& grid, const gt::ControlState& state) {
  int rank = -1;
  ::MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  if (rank == 0) {
    ::mkdir(dir.c_str(), 0755);
  }
  ::MPI_Barrier(MPI_COMM_WORLD);
  fub::amrex::WriteCheckpointFile(dir + "/Tube", grid.GetPatchHierarchy());
  if (rank == 0) {
    std::ofstream file(dir + "/ControlState");
    boost::archive::text_oarchive oa(file);
    oa << state;
  }
  ::MPI_Barrier(MPI_COMM_WORLD);
}

struct TubeOutput : fub::BasicOutput<Grid> {
  fub::Duration NextOutputTime(fub::Duration) override { return fub::Duration(std::numeric_limits<double>::max()); }
  bool ShallOutputNow(const Grid&) override { return true; }
  void operator()(const Grid& grid) override { fn(grid); }
  std::function<void(const Grid&)> fn;
};
} // namespace

std::string Tube::text() const {
  std::ostringstream o;
  const char* valves[] = {"deflagration", "switching", "klein", "reduced"};
  o << grid.text() << " | " << valves[valve] << (outlet ? " fixed-outlet" : " turbine") << (axial ? " axial" : "") << (diffusion ? " diffusion" : "")
    << (reaction ? " reaction" : "") << (user_dt ? " user-dt" : "") << (lumped ? " lumped" : "") << " p=" << pressure << '+' << step << '@' << step_at
    << " u=" << velocity << " T=" << temperature << " filled=" << filled << " delay=" << delay << " turbine=" << turbine_pressure << " target=" << target
    << " I=" << inertia << " spin=" << spin << (sec ? " sec" : "");
  return o.str();
}

gt::ControlOptions control_options(const Tube& t) {
  gt::ControlOptions o;
  o.rpmmin = 0.567;
  o.rpmmax = 3.4;
  o.rpmmean = 0.5 * (o.rpmmin + o.rpmmax);
  o.inertial_moment = t.inertia;
  o.mu = t.mu;
  const double pc = ratio_of_rpm(o, initial_rpm(t, o));
  o.target_pressure_compressor = t.target * pc;
  o.initial_turbine_state.pressure = t.turbine_pressure * pc;
  o.initial_turbine_state.temperature = t.temperature;
  return o;
}

fub::PerfectGasMix<1> tube_equation() { return equation(); }

void program_tube(const Tube& t, const TubeHooks& th) {
  using namespace fub::amrex;
  const Config& c = t.grid;
  const Hooks& h = th.hooks;
  const Gas eq = equation();
  const gt::ControlOptions options = control_options(t);
  gt::Control control(eq, options);
  std::shared_ptr<gt::ControlState> state = control.GetSharedState();
  if (!th.restart_from.empty()) {
    std::ifstream file(th.restart_from + "/ControlState");
    boost::archive::text_iarchive ia(file);
    ia >> *state;
  } else if (t.spin > 0 || t.sec) {
    // as if the run had been going on for some time
    state->current_rpm = initial_rpm(t, options);
    state->compressor.pressure = ratio_of_rpm(options, state->current_rpm);
    state->compressor.temperature = 1 + (std::pow(state->compressor.pressure, 0.4 / 1.4) - 1) / options.efficiency_compressor;
    state->compressor.SEC_Mode = t.sec;
  }
  auto seen = std::make_shared<Observed>();
  InflowFunction inflow{t, seen};
  BoundarySet boundaries;
  auto observe = [&](auto valve) {
    boundaries.conditions.push_back(ObservedValve<decltype(valve)>{valve, t, seen, inflow, state});
  };
  const std::shared_ptr<const gt::ControlState> shared = state;
  if (t.valve == 0) {
    observe(DeflagrationValve(eq, shared, inflow));
  } else if (t.valve == 1) {
    observe(SwitchDeflagrationToSECValve(eq, shared, inflow));
  } else if (t.valve == 2) {
    observe(PressureValveBoundary_Klein(eq, shared, inflow));
  } else {
    observe(PressureValveBoundary_ReducedModelDemo(eq, shared, inflow));
  }
  if (t.outlet == 0) {
    boundaries.conditions.push_back(ObservedOutlet<TurbinePlenumBoundaryCondition>{TurbinePlenumBoundaryCondition{eq, state}, t, state});
  } else {
    boundaries.conditions.push_back(ObservedOutlet<IsentropicPressureExpansion<Gas>>{
        IsentropicPressureExpansion<Gas>{eq, options.initial_turbine_state.pressure, fub::Direction::X, 1}, t, state});
  }
  GradientDetector gradient{eq, std::pair{&Complete::density, c.tol}, std::pair{&Complete::pressure, c.tol}};
  const ::amrex::Box end(::amrex::IntVect(c.nx - 5, 0), ::amrex::IntVect(c.nx - 1, 0));
  AnyTaggingMethod tagging = TagAllOf(gradient, ConstantBox{end});
  if (c.tag == 1) {
    tagging = gradient;
  } else if (c.tag == 2) {
    tagging = ConstantBox{end};
  } else if (c.tag == 3) {
    tagging = EndTagging{c};
  }
  const DataDescription desc = MakeDataDescription(eq);
  std::shared_ptr<GriddingAlgorithm> grid;
  if (th.restart_from.empty()) {
    grid = std::make_shared<GriddingAlgorithm>(PatchHierarchy(desc, grid_geometry(c), hierarchy_options(c)), Initial{t}, tagging, boundaries);
    grid->InitializeHierarchy(0.0);
  } else {
    PatchHierarchy hier = ReadCheckpointFile(th.restart_from + "/Tube", desc, grid_geometry(c), hierarchy_options(c));
    grid = std::make_shared<GriddingAlgorithm>(std::move(hier), Initial{t}, tagging, boundaries);
  }
  std::shared_ptr<gt::ControlOutput> control_output;
  if (!th.control_file.empty()) {
    pybind11::gil_scoped_acquire gil;
    fub::ProgramOptions po;
    po["path"] = pybind11::cast(th.control_file);
    po["frequencies"] = pybind11::cast(std::vector<std::ptrdiff_t>{1});
    control_output = std::make_shared<gt::ControlOutput>(po, state);
  }
  TubeOutput output;
  std::size_t number = 0;
  output.fn = [&](const Grid& g) {
    if (h.output) {
      h.output(g);
    }
    if (th.output) {
      th.output(g, *state, seen->t_opened);
    }
    if (control_output) {
      fub::OutputAtFrequencyOrInterval<Grid>& o = *control_output;
      if (o.ShallOutputNow(g)) {
        o(g);
      }
    }
    if (!th.checkpoints.empty()) {
      write_checkpoint(th.checkpoints + "/" + std::to_string(number), g, *state);
    }
    ++number;
  };
  using HLLEM = fub::perfect_gas::HllemMethod<Gas>;
  using Muscl = fub::FluxMethod<fub::MusclHancock2<Gas, fub::PrimitiveGradient<Gas, fub::CentralDifferenceGradient<fub::MinModLimiter>>,
                                                   fub::PrimitiveReconstruction<Gas>, HLLEM>>;
  auto simulate = [&](auto level_integrator) {
    fub::RunOptions run{};
    run.final_time = fub::Duration(1e9);
    run.max_cycles = h.max_cycles;
    run.cfl = c.cfl;
    auto go = [&](auto solver) {
      output(*solver.GetGriddingAlgorithm());
      for (fub::Duration dt : h.steps) {
        solver.PreAdvanceHierarchy();
        solver.ComputeStableDt();
        if (!solver.AdvanceHierarchy(dt)) {
          sim::violate("accepted-step-rejected", "a step of %.17g s, which was accepted, is rejected when it is repeated", dt.count());
        }
        solver.PostAdvanceHierarchy(dt);
        output(*solver.GetGriddingAlgorithm());
      }
      if (h.steps.empty()) {
        fub::RunSimulation(solver, run, std::chrono::steady_clock::now(), output);
      }
    };
    if (c.subcycle) {
      go(fub::SubcycleFineFirstSolver(std::move(level_integrator)));
    } else {
      go(fub::NoSubcycleSolver(std::move(level_integrator)));
    }
  };
  auto with_sources = [&](auto level) {
    fub::perfect_gas_mix::ArrheniusKineticsOptions kinetics;
    kinetics.Q = options.Q;
    kinetics.EA = 10.0;
    kinetics.B = 0.5;
    kinetics.T_switch = 1.05;
    DiffusionSourceTermOptions diffusion;
    diffusion.reynolds = t.reynolds;
    diffusion.mul = 2.0;
    diffusion.prandtl = 0.7;
    auto with = [&](auto split) {
      if (t.diffusion && t.reaction) {
        simulate(fub::SplitSystemSourceLevelIntegrator(fub::SplitSystemSourceLevelIntegrator(std::move(level), DiffusionSourceTerm<Gas>(eq, diffusion), split),
                                                       fub::perfect_gas_mix::ArrheniusKinetics<1>(eq, kinetics), split));
      } else if (t.diffusion) {
        simulate(fub::SplitSystemSourceLevelIntegrator(std::move(level), DiffusionSourceTerm<Gas>(eq, diffusion), split));
      } else if (t.reaction) {
        simulate(fub::SplitSystemSourceLevelIntegrator(std::move(level), fub::perfect_gas_mix::ArrheniusKinetics<1>(eq, kinetics), split));
      } else {
        simulate(std::move(level));
      }
    };
    if (t.lumped) {
      with(fub::StrangSplittingLumped{});
    } else {
      with(fub::GodunovSplitting{});
    }
  };
  auto with_method = [&](auto flux) {
    IntegratorContextOptions io{};
    const int extra = t.diffusion ? 4 : 0; // the two half steps of the diffusion reach two cells each
    io.scratch_gcw = flux.GetStencilWidth() * 2 + extra;
    io.flux_gcw = flux.GetStencilWidth() + (t.diffusion ? 2 : 0);
    io.regrid_frequency = c.regrid_frequency;
    auto build = [&](HyperbolicMethod method) {
      Context context(IntegratorContext(grid, method, io), &h);
      if (t.user_dt) {
        context.SetComputeStableDt(UserStableDt{0.9});
      }
      context.SetPostAdvanceHierarchyFeedback(Feedback{gt::ControlFeedback<1>(eq, control, [&] {
                                                         gt::ControlFeedbackOptions o;
                                                         o.mdot_correlation = t.mdot;
                                                         return o;
                                                       }()),
                                                       state, t, &th});
      with_sources(fub::DimensionalSplitLevelIntegrator(fub::int_c<1>, std::move(context), fub::GodunovSplitting{}));
    };
    if (t.axial) {
      AxialFluxMethodAdapter adapted(flux);
      auto pressure = adapted.SharedInterfacePressure();
      const ::amrex::Vector<::amrex::Geometry> geoms = grid->GetPatchHierarchy().GetGeometries();
      AxialTimeIntegrator time_integrator(eq, std::vector<::amrex::Geometry>(geoms.begin(), geoms.end()), pressure,
                                          [lx = c.lx](double x) { return 1.0 + 0.5 * std::max(0.0, x / lx); });
      build(HyperbolicMethod{std::move(adapted), std::move(time_integrator), Reconstruction(eq)});
    } else {
      build(HyperbolicMethod{FluxMethodAdapter(flux), EulerForwardTimeIntegrator(), Reconstruction(eq)});
    }
  };
  if (c.flux) {
    with_method(Muscl{eq});
  } else {
    with_method(HLLEM{eq});
  }
}
} // namespace amr
