// C23: the gas turbine's tube. See tube.hpp.
#include "tube.hpp"

#include "sim_fs.hpp"

#include <cmath>
#include <fstream>
#include <hdf5.h>
#include <pybind11/embed.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace amr {
Tube draw_tube() {
  Tube t;
  Config& c = t.grid;
  c.tube = true;
  c.equation = 1;
  c.flux = static_cast<int>(sim::choose(2, "flux"));
  c.subcycle = !sim::chance(0.3, "nosubcycle");
  c.levels = 1 + static_cast<int>(sim::choose(3, "levels"));
  t.diffusion = sim::chance(0.3, "diffusion");
  // Blocks are as wide as the ghost layers.
  c.blocking = c.flux || t.diffusion ? 8 : (sim::chance(0.5, "blocking") ? 4 : 8);
  c.nx = 8 * (2 + static_cast<int>(sim::choose(4, "nx")));
  c.ny = 1;
  c.lx = sim::chance(0.3, "lx") ? 2.5 : 1.0;
  c.ly = 1.0;
  c.max_grid = c.blocking * (1 + static_cast<int>(sim::choose(4, "max_grid")));
  c.n_error_buf = static_cast<int>(sim::choose(3, "n_error_buf"));
  c.bc[0][0] = c.bc[0][1] = c.bc[1][0] = c.bc[1][1] = 2;
  c.regrid_frequency = sim::chance(0.3, "regrid_frequency") ? 2 : 1;
  c.tag = static_cast<int>(sim::choose(4, "tag"));
  c.tol = sim::uniform(0.01, 0.4, "tol");
  c.steps = 1 + static_cast<int>(sim::choose(sim::info().tier == "quick" ? 8 : 14, "steps"));
  c.cfl = sim::uniform(0.3, c.flux ? 0.5 : 0.9, "cfl");
  c.data = sim::choose(1u << 16, "data");
  c.amplitude = sim::chance(0.1, "uniform") ? 0.0 : sim::uniform(0.2, 1.0, "amplitude");
  t.valve = static_cast<int>(sim::choose(4, "valve"));
  t.outlet = sim::chance(0.2, "outlet") ? 1 : 0;
  t.axial = sim::chance(0.3, "axial");
  t.reaction = sim::chance(0.3, "reaction");
  t.user_dt = sim::chance(0.3, "user_dt");
  t.lumped = sim::chance(0.5, "lumped");
  t.pressure = sim::uniform(0.85, 1.08, "pressure");
  t.step = sim::chance(0.6, "step") ? sim::uniform(-0.3, 0.3, "step") : 0.0;
  t.step_at = 1 + static_cast<int>(sim::choose(4, "step_at"));
  t.velocity = sim::chance(0.3, "velocity") ? 0.0 : sim::uniform(-0.3, 0.5, "velocity");
  t.filled = sim::uniform(0.0, 0.9, "filled");
  t.delay = sim::chance(0.5, "delay") ? 0.0 : sim::uniform(0.0, 0.1, "delay");
  t.temperature = sim::uniform(1.2, 3.0, "temperature");
  t.turbine_pressure = sim::uniform(0.6, 1.2, "turbine");
  t.target = sim::uniform(0.85, 1.2, "target");
  t.inertia = sim::chance(0.5, "light") ? 1e-3 : 0.1;
  t.mdot = sim::uniform(0.05, 0.5, "mdot");
  // The repository's diffusion does not limit the time step, so it is drawn weak enough to be stable.
  t.reynolds = 60.0 * (c.nx << (c.levels - 1)) / c.lx * (1.0 + sim::uniform(0.0, 4.0, "reynolds"));
  t.spin = sim::chance(0.4, "spinning") ? sim::uniform(0.0, 0.6, "spin") : 0.0;
  t.sec = sim::chance(0.25, "sec");
  if (t.sec) {
    t.target = sim::uniform(0.95, 1.15, "target");
  }
  return t;
}

std::map<std::string, double> fields(const gt::ControlState& s) {
  return {{"current_rpm", s.current_rpm},
          {"power_out", s.power_out},
          {"fuel_consumption", s.fuel_consumption},
          {"fuel_consumption_rate", s.fuel_consumption_rate},
          {"efficiency", s.efficiency},
          {"compressor_pressure", s.compressor.pressure},
          {"compressor_temperature", s.compressor.temperature},
          {"compressor_power", s.compressor.power},
          {"compressor_mass_flow_in", s.compressor.mass_flow_in},
          {"compressor_mass_flow_out", s.compressor.mass_flow_out},
          {"compressor_SEC_Mode", s.compressor.SEC_Mode ? 1.0 : 0.0},
          {"turbine_pressure", s.turbine.pressure},
          {"turbine_temperature", s.turbine.temperature},
          {"turbine_power", s.turbine.power},
          {"turbine_mass_flow_in", s.turbine.mass_flow_in},
          {"turbine_mass_flow_out", s.turbine.mass_flow_out}};
}

gt::ControlState control_model(const Tube& t, gt::ControlState s, double rho_in, double fuel_in, double rho_out, double energy_out, double dt) {
  const gt::ControlOptions o = control_options(t);
  const double gamma = 1.4, cp = gamma / (gamma - 1), kappa = (gamma - 1) / gamma;
  auto relax = [dt](double old, double now) { return old + dt * (now - old); };
  // the turbine's plenum
  const double p = s.turbine.pressure, T = s.turbine.temperature, rho = p / T;
  const double mdot = t.mdot * p / std::sqrt(T);
  const double rho_new = rho + dt / o.volume_turbine_plenum * (o.surface_area_tube_outlet * rho_out - mdot);
  const double p_new = p + (gamma - 1) * dt / o.volume_turbine_plenum * (o.surface_area_tube_outlet * energy_out - mdot * cp * T);
  const double T_new = p_new / rho_new;
  s.turbine.mass_flow_in = relax(s.turbine.mass_flow_in, o.surface_area_tube_outlet * rho_out);
  s.turbine.mass_flow_out = relax(s.turbine.mass_flow_out, mdot);
  s.turbine.power = o.efficiency_turbine * mdot * cp * 0.5 * (T + T_new) * (1 - 1 / std::pow(0.5 * (p + p_new), kappa));
  s.turbine.pressure = p_new;
  s.turbine.temperature = T_new;
  // the compressor and its plenum
  const double before = s.compressor.pressure / s.compressor.temperature, T_before = s.compressor.temperature;
  s.compressor.pressure = o.pratiomean + o.c_0 * o.pratiovar / M_PI * std::atan(M_PI * (s.current_rpm - o.rpmmean) / o.rpmmean);
  s.compressor.temperature = 1 + (std::pow(s.compressor.pressure, kappa) - 1) / o.efficiency_compressor;
  const double flow = o.surface_area_tube_inlet * rho_in;
  const double in = flow + o.volume_compressor_plenum * (s.compressor.pressure / s.compressor.temperature - before) / dt;
  s.compressor.mass_flow_in = relax(s.compressor.mass_flow_in, in);
  s.compressor.mass_flow_out = relax(s.compressor.mass_flow_out, flow);
  s.compressor.power = relax(s.compressor.power, in * cp * (0.5 * (T_before + s.compressor.temperature) - 1) / o.efficiency_compressor);
  s.fuel_consumption += dt * o.surface_area_tube_inlet * fuel_in;
  s.fuel_consumption_rate = relax(s.fuel_consumption_rate, o.surface_area_tube_inlet * fuel_in);
  // the rotor
  const double target = o.target_pressure_compressor, gap = 1 - s.compressor.pressure / target;
  const double net = s.turbine.power - s.compressor.power;
  const double spent = gap > 0 ? 0.015 * (1 - std::exp(-o.mu * gap)) * net : 0.0;
  const double inertia = 2 * M_PI * M_PI * o.inertial_moment;
  s.current_rpm = std::min(o.rpmmax, std::max(o.rpmmin, std::sqrt(std::max(0.0, s.current_rpm * s.current_rpm + dt * spent / inertia))));
  s.power_out = net - spent;
  s.efficiency = std::max(0.0, s.power_out) / (o.Q * s.fuel_consumption_rate + 1.4901161193847656e-08);
  s.compressor.SEC_Mode = s.compressor.SEC_Mode ? s.compressor.pressure > 0.9 * target : gap < o.pressure_relDiffTolerance_SEC;
  return s;
}

namespace {
using History = std::vector<std::shared_ptr<Image>>;
/// What a machine shows of one cycle.
struct Shown {
  bool set = false;
  gt::ControlState control;
  std::optional<fub::Duration> t_opened;
};
struct Change {
  double dt = 0;
  Ends ends;
};
struct Ran {
  History images;
  std::vector<Shown> shown;
  std::vector<Change> changes;
  std::vector<fub::Duration> accepted;
};

std::string control_difference(const gt::ControlState& a, const gt::ControlState& b) {
  const auto x = fields(a), y = fields(b);
  for (const auto& [name, value] : x) {
    if (std::memcmp(&value, &y.at(name), sizeof value) != 0) {
      char buf[200];
      std::snprintf(buf, sizeof buf, "%s is %.17g and %.17g", name.c_str(), value, y.at(name));
      return buf;
    }
  }
  return "";
}
std::string read_text(const std::string& name) {
  std::ifstream in(name);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
std::string valve_text(const std::optional<fub::Duration>& d) { return d ? "open since " + std::to_string(d->count()) : std::string("closed"); }

Ran run(const Tube& t, const Machine& m, const TubeHooks& h, const std::function<void(TubeHooks&, int rank)>& setup = {}) {
  Ran ran;
  run_machine(m, [&](int rank) {
    TubeHooks mine = h;
    if (setup) {
      setup(mine, rank);
    }
    std::size_t n = 0, changes = 0, outputs = 0;
    fub::Duration last(0);
    const auto user_attempt = mine.hooks.attempt;
    mine.hooks.attempt = [&, user_attempt](fub::Duration dt) {
      last = dt;
      if (user_attempt) {
        user_attempt(dt);
      }
    };
    mine.feedback = [&](fub::Duration dt, const gt::ControlState&, const gt::ControlState&, const Ends& ends) {
      if (dt != last) {
        sim::violate("wrong-feedback-time", "rank %d: the control is updated for %.17g s after a step of %.17g s", rank, dt.count(), last.count());
      }
      if (ran.changes.size() == changes) {
        ran.changes.push_back({dt.count(), ends});
      }
      ++changes;
    };
    const auto user_output = mine.output;
    mine.output = [&, user_output](const Grid& grid, const gt::ControlState& s, std::optional<fub::Duration> opened) {
      if (ran.images.size() == n) {
        ran.images.push_back(std::make_shared<Image>());
        ran.shown.push_back({true, s, opened});
      }
      deposit(*ran.images[n], grid.GetPatchHierarchy(), "output");
      const std::string diff = control_difference(ran.shown[n].control, s);
      if (!diff.empty()) {
        sim::violate("ranks-disagree", "output %zu: %s on two ranks", n, diff.c_str());
      }
      if (ran.shown[n].t_opened != opened) {
        sim::violate("ranks-disagree", "output %zu: the valve is %s and %s on two ranks", n, valve_text(opened).c_str(), valve_text(ran.shown[n].t_opened).c_str());
      }
      if (n > 0) {
        if (changes != n) {
          sim::violate("control-not-updated", "rank %d: the control is updated %zu times in %zu accepted steps", rank, changes, n);
        }
        if (rank == 0) {
          ran.accepted.push_back(last);
        }
      }
      ++n;
      if (user_output) {
        user_output(grid, s, opened);
      }
    };
    (void)outputs;
    program_tube(t, mine);
  });
  return ran;
}

void compare_control_file(const std::string& name, const Ran& ran, std::size_t n) {
  const hid_t file = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (file < 0) {
    sim::violate("file-unreadable", "%s cannot be opened", name.c_str());
  }
  const hid_t data = H5Dopen(file, "/data", H5P_DEFAULT), times = H5Dopen(file, "/times", H5P_DEFAULT), cycles = H5Dopen(file, "/cycles", H5P_DEFAULT),
              names = H5Dopen(file, "/fields", H5P_DEFAULT);
  hsize_t dims[2] = {}, nt = 0, nc = 0, nf = 0;
  if (data < 0 || times < 0 || cycles < 0 || names < 0 || H5Sget_simple_extent_ndims(H5Dget_space(data)) != 2) {
    sim::violate("dataset-missing", "%s lacks a dataset", name.c_str());
  }
  H5Sget_simple_extent_dims(H5Dget_space(data), dims, nullptr);
  H5Sget_simple_extent_dims(H5Dget_space(times), &nt, nullptr);
  H5Sget_simple_extent_dims(H5Dget_space(cycles), &nc, nullptr);
  H5Sget_simple_extent_dims(H5Dget_space(names), &nf, nullptr);
  const std::size_t expected = fields({}).size();
  if (dims[0] != n || nt != n || nc != n || dims[1] != expected || nf != expected) {
    sim::violate("wrong-number-of-records", "%s has %llu rows of %llu values, %llu times, %llu cycles and %llu names, not %zu rows of %zu", name.c_str(),
                 (unsigned long long)dims[0], (unsigned long long)dims[1], (unsigned long long)nt, (unsigned long long)nc, (unsigned long long)nf, n, expected);
  }
  std::vector<double> x(n * expected), tt(n);
  std::vector<int64_t> cc(n);
  std::vector<char*> nn(expected);
  const hid_t type = H5Tcopy(H5T_C_S1);
  H5Tset_size(type, H5T_VARIABLE);
  if (H5Dread(data, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data()) < 0 || H5Dread(times, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, tt.data()) < 0 ||
      H5Dread(cycles, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, cc.data()) < 0 || H5Dread(names, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, nn.data()) < 0) {
    sim::violate("file-unreadable", "a dataset of %s cannot be read", name.c_str());
  }
  for (std::size_t k = 0; k < n; ++k) {
    const LevelImage& L = ran.images[k]->levels[0];
    if (tt[k] != L.time || cc[k] != L.cycles) {
      sim::violate("wrong-time", "%s: row %zu has time %.17g and cycle %ld, not %.17g and %ld", name.c_str(), k, tt[k], static_cast<long>(cc[k]), L.time, L.cycles);
    }
    const auto want = fields(ran.shown[k].control);
    for (std::size_t f = 0; f < expected; ++f) {
      const auto it = want.find(nn[f]);
      if (it == want.end() || !(it->second == x[k * expected + f])) {
        sim::violate("wrong-record", "%s: row %zu has %s = %.17g, the control has %.17g", name.c_str(), k, nn[f], x[k * expected + f], it == want.end() ? NAN : it->second);
      }
    }
  }
  H5close();
}

void compare(const Ran& a, std::size_t from, const Ran& b, std::size_t k_b, const char* what) {
  const std::string diff = difference(*a.images[from], *b.images[k_b], false);
  if (!diff.empty()) {
    sim::violate(what, "cycle %zu: %s", from, diff.c_str());
  }
  const std::string control = control_difference(a.shown[from].control, b.shown[k_b].control);
  if (!control.empty()) {
    sim::violate(what, "cycle %zu: %s", from, control.c_str());
  }
}
} // namespace

void check_c23() {
  Tube t = draw_tube();
  Machine a = draw_machine(1), b = draw_machine(4);
  Tube d = t;
  d.grid.max_grid = d.grid.blocking * (1 + static_cast<int>(sim::choose(4, "max_grid2")));
  const int end = static_cast<int>(sim::choose(4, "end")); // 0: none, 1: control file, 2: restart, 3: both
  sim::describe(t.text() + " | " + a.text() + " | grid=" + std::to_string(d.grid.max_grid) + " " + b.text() + (end ? " end=" + std::to_string(end) : ""));
  const std::string root = sim::fs_enter_scratch();
  sim::set_switch_hooks({[]() -> void* { return PyGILState_Check() ? PyEval_SaveThread() : nullptr; },
                         [](void* p) {
                           if (p) {
                             PyEval_RestoreThread(static_cast<PyThreadState*>(p));
                           }
                         }});
  TubeHooks h;
  h.hooks.max_cycles = t.grid.steps;
  if (end & 2) {
    h.checkpoints = root;
  }
  Ran one, two;
  auto observed = [&](TubeHooks& mine) {
    if (end & 1) {
      mine.control_file = "out/control.h5";
    }
  };
  // What stands in the way of the control's file stays.
  std::string written = "out/control.h5";
  std::map<std::string, std::string> kept;
  if (end & 1) {
    const uint64_t obstacle = sim::choose(5, "obstacle");
    auto put = [&](const std::string& name, const std::string& text) {
      std::ofstream(name) << text;
      kept[name] = text;
    };
    if (obstacle) {
      ::mkdir("out", 0755);
      sim::count("fault:obstacle in the way of a file");
    }
    if (obstacle == 2) {
      put("out/control.h5.1", "older");
    } else if (obstacle == 3) {
      ::mkdir("out/control.h5", 0755);
      put("out/control.h5/inside", "inside");
      written = "out/control.h5.1";
    }
    if (obstacle == 1 || obstacle == 2) {
      std::ofstream(written) << "old";
      kept[written + (obstacle == 1 ? ".1" : ".2")] = "old";
    }
  }
  auto check_kept = [&] {
    for (const auto& [name, text] : kept) {
      if (read_text(name) != text) {
        sim::violate("file-lost", "%s does not hold what was there before", name.c_str());
      }
    }
  };
  if (sim::chance(0.4, "reject")) {
    struct Plan {
      int64_t at;
      int rank;
      double factor;
    };
    std::vector<Plan> plan(1 + sim::choose(3, "rejections"));
    for (Plan& p : plan) {
      p.at = static_cast<int64_t>(sim::choose(static_cast<uint64_t>(6 * t.grid.steps * t.grid.levels), "at"));
      p.rank = static_cast<int>(sim::choose(static_cast<uint64_t>(b.nranks), "rank"));
      p.factor = sim::uniform(0.1, 0.95, "factor");
    }
    two = run(d, b, h, [&](TubeHooks& mine, int rank) {
      observed(mine);
      auto last = std::make_shared<fub::Duration>(1e9);
      mine.hooks.attempt = [last](fub::Duration dt) { *last = dt; };
      mine.hooks.stable_dt = [&, rank, last, n = int64_t{0}](int level, fub::Direction, fub::Duration dt) mutable {
        for (const Plan& p : plan) {
          if (p.at == n && p.rank == rank) {
            sim::count("fault:smaller stable step");
            sim::event("less on level %d", level);
            dt = p.factor * std::min<fub::Duration>(dt, t.grid.subcycle ? *last / std::pow(t.grid.ratio, level) : *last);
          }
        }
        ++n;
        return dt;
      };
    });
    if (end & 1) {
      compare_control_file(written, two, two.images.size());
      check_kept();
    }
    TubeHooks again = h;
    again.hooks.steps = two.accepted;
    again.checkpoints.clear();
    one = run(t, a, again);
  } else {
    TubeHooks first = h;
    first.checkpoints.clear();
    one = run(t, a, first);
    two = run(d, b, h, [&](TubeHooks& mine, int) { observed(mine); });
    if (end & 1) {
      compare_control_file(written, two, two.images.size());
      check_kept();
    }
  }
  sim::event("outputs %zu %zu hash %llx", one.images.size(), two.images.size(), (unsigned long long)hash(*one.images.back()));
  if (one.images.size() != two.images.size()) {
    sim::violate("different-steps", "%zu outputs against %zu", one.images.size(), two.images.size());
  }
  for (std::size_t k = 0; k < one.images.size(); ++k) {
    compare(one, k, two, k, "decomposition-dependent");
    if (one.shown[k].t_opened != two.shown[k].t_opened) {
      sim::violate("decomposition-dependent", "cycle %zu: the valve is %s and %s", k, valve_text(one.shown[k].t_opened).c_str(), valve_text(two.shown[k].t_opened).c_str());
    }
    if (k && one.shown[k].control.compressor.SEC_Mode != one.shown[k - 1].control.compressor.SEC_Mode) {
      sim::count("control switches its mode");
    }
    sim::count("levels:" + std::to_string(one.images[k]->levels.size()));
  }
  // Mass enters and leaves the tube only through its ends; fuel and energy do
  // if nothing burns or diffuses.
  for (std::size_t k = 1; !t.axial && k < one.images.size(); ++k) {
    auto coarse_end = [&](const Image& im, int i) { return is_leaf(im, 0, i, 0, t.grid.ratio); };
    const Image &x = *one.images[k - 1], &y = *one.images[k];
    const int last = t.grid.nx - 1;
    if (!coarse_end(x, 0) || !coarse_end(y, 0) || !coarse_end(x, last) || !coarse_end(y, last)) {
      continue;
    }
    const fub::PerfectGasMix<1> eq = tube_equation();
    const fub::IndexMapping<fub::PerfectGasMix<1>> at{eq};
    const int comps[] = {at.density, at.species[0], at.energy};
    const char* names[] = {"mass", "fuel", "energy"};
    for (std::size_t q = 0; q < (t.reaction || t.diffusion ? 1u : 3u); ++q) {
      double mag = 0;
      const double was = integral(x, comps[q], t.grid, &mag), is = integral(y, comps[q], t.grid, nullptr);
      const Change& ch = one.changes[k - 1];
      const double want = was + t.grid.ly * ch.dt * (ch.ends.in[q] - ch.ends.out[q]);
      sim::count(std::string("balances of ") + names[q]);
      if (!(std::abs(is - want) <= 1e-11 * (1 + mag))) {
        sim::violate("not-balanced", "cycle %zu: the tube's %s is %.17g after a step of %.17g s with an inflow of %.17g and an outflow of %.17g; it was %.17g", k, names[q], is,
                     ch.dt, ch.ends.in[q], ch.ends.out[q], was);
      }
    }
  }
  if (end & 2) {
    const std::size_t k = sim::choose(two.images.size(), "restart at");
    const Machine m = draw_machine(4);
    Tube e = t;
    e.grid.max_grid = e.grid.blocking * (1 + static_cast<int>(sim::choose(4, "max_grid3")));
    TubeHooks tail;
    tail.restart_from = root + "/" + std::to_string(k);
    tail.hooks.max_cycles = t.grid.steps;
    const bool forced = sim::chance(0.5, "same steps");
    if (k < two.accepted.size()) {
      tail.hooks.steps.assign(two.accepted.begin() + static_cast<long>(k), two.accepted.end());
    }
    (void)forced;
    sim::count("fault:restart");
    sim::event("restart at %zu", k);
    std::string moved;
    if (end & 1) {
      tail.control_file = "out/control.h5";
      for (int n = 1; moved.empty() || ::access(moved.c_str(), F_OK) == 0; ++n) {
        moved = "out/control.h5." + std::to_string(n);
      }
    }
    const Ran three = run(e, m, tail);
    if (end & 1) {
      if (written == "out/control.h5") {
        compare_control_file(moved, two, two.images.size());
        compare_control_file(written, three, three.images.size());
      } else {
        compare_control_file(written, two, two.images.size());
        compare_control_file(moved, three, three.images.size());
      }
      check_kept();
    }
    // Whether a valve is open is not part of a checkpoint.
    const std::size_t comparable = t.stateless() ? three.images.size() : 1;
    for (std::size_t q = 0; q < comparable; ++q) {
      compare(two, k + q, three, q, "restart-differs");
    }
  }
  if (one.images.back()->levels.size() > 1 && b.nranks > 1) {
    sim::mark_nontrivial();
  }
  sim::cover(hash(*one.images.back()));
}
} // namespace amr
