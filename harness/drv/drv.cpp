// Simulation of complete runs: RunSimulation and the solver stack on 1-4
// simulated ranks, with outputs, injected rejections and a simulated clock.
#include "drv.hpp"

#include "fub/output/AsOutput.hpp"
#include "fub/output/CounterOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "fub/output/OutputFactory.hpp"

#include <boost/log/core.hpp>
#include <boost/log/expressions.hpp>
#include <boost/log/sinks.hpp>
#include <boost/make_shared.hpp>
#include <pybind11/embed.h>

#include <algorithm>
#include <cstdlib>

namespace py = pybind11;

// ------------------------------------------------------------------ logging
namespace {
class CaptureBackend
    : public boost::log::sinks::basic_formatted_sink_backend<
          char, boost::log::sinks::synchronized_feeding> {
public:
  void consume(const boost::log::record_view&, const std::string& text) {
    if (g_rc && g_rc->rec) {
      g_rc->rec->lines.push_back({text, sim::clock_ns(g_rc->rank),
                                  g_rc->rec->steps.size(), g_rc->rec->attempts.size()});
    }
  }
};
} // namespace

void scenario_init() {
  static py::scoped_interpreter interpreter{};
  py::module_::import("math");
  static py::gil_scoped_release release{};
  using Sink = boost::log::sinks::synchronous_sink<CaptureBackend>;
  auto sink = boost::make_shared<Sink>();
  sink->set_formatter(boost::log::expressions::stream << boost::log::expressions::smessage);
  boost::log::core::get()->add_sink(sink);
}

// ------------------------------------------------------------------ outputs
namespace {
struct Collective {
  static void touch(const Grid& grid) {
    if (grid.nranks > 1) {
      double a = grid.GetTimePoint().count(), b = 0;
      MPI_Allreduce(&a, &b, 1, MPI_DOUBLE, MPI_MAX, grid.comm);
    }
  }
};

void record_output(int id, const Grid& grid) {
  RankRecord& rec = *g_rc->rec;
  rec.outputs.push_back({id, grid.GetCycles(), grid.GetTimePoint().count(),
                         grid.snapshot().hash(), rec.steps.size(), rec.attempts.size()});
  if (g_rc->sc->step_cost_ns > 0) {
    sim::advance_ns(g_rc->sc->step_cost_ns / 3);
  }
  Collective::touch(grid);
}

/// Writes nothing, records everything.
struct Recorder : fub::OutputAtFrequencyOrInterval<Grid> {
  Recorder(int i, std::vector<std::ptrdiff_t> f, std::vector<fub::Duration> t, fub::Duration eps)
      : fub::OutputAtFrequencyOrInterval<Grid>(std::move(f), std::move(t), eps), id(i) {}
  explicit Recorder(const std::map<std::string, py::object>& o)
      : fub::OutputAtFrequencyOrInterval<Grid>(o), id(o.at("id").cast<int>()) {}
  void operator()(const Grid& grid) override { record_output(id, grid); }
  int id;
};

/// Irregular times, as a user's own output class may ask for.
struct TimesOutput : fub::BasicOutput<Grid> {
  TimesOutput(int i, std::vector<double> t, double e) : id(i), times(std::move(t)), eps(e) {}
  fub::Duration NextOutputTime(fub::Duration t) override {
    for (double x : times) {
      if (t.count() + 2 * eps < x) {
        return fub::Duration(x);
      }
    }
    return fub::Duration(std::numeric_limits<double>::max());
  }
  bool ShallOutputNow(const Grid& grid) override {
    const double t = grid.GetTimePoint().count();
    return std::any_of(times.begin(), times.end(), [&](double x) { return std::abs(t - x) < 2 * eps; });
  }
  void operator()(const Grid& grid) override { record_output(id, grid); }
  int id;
  std::vector<double> times;
  double eps;
};

struct Tap : fub::BasicOutput<Grid> {
  Tap(int i, std::unique_ptr<fub::BasicOutput<Grid>> o) : id(i), inner(std::move(o)) {}
  explicit Tap(const std::map<std::string, py::object>& o)
      : id(o.at("id").cast<int>()), inner(std::make_unique<Recorder>(o)) {}
  fub::Duration NextOutputTime(fub::Duration t) override {
    const fub::Duration r = inner->NextOutputTime(t);
    auto& v = g_rc->rec->requested;
    if (v.size() <= static_cast<std::size_t>(id)) {
      v.resize(static_cast<std::size_t>(id) + 1, std::numeric_limits<double>::max());
    }
    v[static_cast<std::size_t>(id)] = r.count();
    return r;
  }
  bool ShallOutputNow(const Grid& g) override { return inner->ShallOutputNow(g); }
  void operator()(const Grid& g) override { (*inner)(g); }
  int id;
  std::unique_ptr<fub::BasicOutput<Grid>> inner;
};

std::vector<fub::Duration> durations(const std::vector<double>& v) {
  std::vector<fub::Duration> r;
  for (double x : v) {
    r.emplace_back(x);
  }
  return r;
}
} // namespace

std::unique_ptr<fub::BasicOutput<Grid>>
make_outputs(const Scenario& sc, std::chrono::steady_clock::time_point ref) {
  std::unique_ptr<fub::MultipleOutputs<Grid>> result;
  const bool options = std::any_of(sc.outputs.begin(), sc.outputs.end(),
                                   [](const OutputSpec& o) { return o.kind == OutOptions; });
  if (options) {
    py::gil_scoped_acquire gil;
    std::map<std::string, py::object> opts;
    py::list list;
    if (!sc.top_freq.empty()) {
      opts["frequencies"] = py::cast(sc.top_freq);
    }
    if (!sc.top_int.empty()) {
      opts["intervals"] = py::cast(sc.top_int);
    }
    for (std::size_t i = 0; i < sc.outputs.size(); ++i) {
      const OutputSpec& o = sc.outputs[i];
      if (o.kind != OutOptions) {
        continue;
      }
      py::dict d;
      d["type"] = "Tap";
      d["id"] = static_cast<int>(i);
      d["smallest_time_step_size"] = sc.eps;
      if (!o.inherit_freq) {
        d["frequencies"] = py::cast(o.frequencies);
      }
      if (!o.inherit_int) {
        d["intervals"] = py::cast(o.intervals);
      }
      list.append(d);
    }
    opts["outputs"] = list;
    fub::OutputFactory<Grid> factory;
    factory.RegisterOutput<Tap>("Tap");
    result = std::make_unique<fub::MultipleOutputs<Grid>>(std::move(factory), opts);
  } else {
    result = std::make_unique<fub::MultipleOutputs<Grid>>();
  }
  for (std::size_t i = 0; i < sc.outputs.size(); ++i) {
    const OutputSpec& o = sc.outputs[i];
    const int id = static_cast<int>(i);
    switch (o.kind) {
    case OutRecorder:
      result->AddOutput(std::make_unique<Tap>(
          id, std::make_unique<Recorder>(id, o.frequencies, durations(o.intervals), fub::Duration(sc.eps))));
      break;
    case OutAsOutput:
      result->AddOutput(std::make_unique<Tap>(
          id, fub::MakeOutput<Grid>(o.frequencies, durations(o.intervals),
                                    [id](const Grid& g) { record_output(id, g); })));
      break;
    case OutTimes:
      result->AddOutput(std::make_unique<Tap>(id, std::make_unique<TimesOutput>(id, o.times, sc.eps)));
      break;
    case OutCounter:
      result->AddOutput(std::make_unique<fub::CounterOutput<Grid>>(ref, o.frequencies, durations(o.intervals)));
      break;
    default:
      break;
    }
  }
  return result;
}

// ------------------------------------------------------------------ phases
SimContext make_context(const Scenario& sc, int rank, int nranks, MPI_Comm comm) {
  auto grid = std::make_shared<Grid>(sc, rank, nranks, comm);
  KernelMethod k(make_kernel(sc.eq, sc.method, sc.simd, sc.salt));
  SimMethod method{k, k, k};
  SimContext ctx(std::move(grid), std::move(method));
  return ctx;
}

std::vector<RankRecord> run_phase(const Scenario& sc, int nranks, RunMode mode, bool faults,
                                  const std::vector<double>& dts) {
  std::vector<RankRecord> recs(static_cast<std::size_t>(nranks));
  std::vector<RankCtx> ctxs(static_cast<std::size_t>(nranks));
  auto body = [&](int r) {
    RankCtx& rc = ctxs[static_cast<std::size_t>(r)];
    rc.sc = &sc;
    rc.rec = &recs[static_cast<std::size_t>(r)];
    rc.rank = r;
    rc.faults = faults;
    g_rc = &rc;
    run_rank(sc, rc, nranks > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF, nranks, mode, dts);
    g_rc = nullptr;
  };
  sim::mpi_init(nranks);
  if (nranks == 1) {
    body(0);
  } else {
    std::vector<int> tasks;
    for (int r = 0; r < nranks; ++r) {
      tasks.push_back(sim::spawn("rank" + std::to_string(r), r, [&, r] { body(r); }));
    }
    sim::join(tasks);
  }
  return recs;
}

// ------------------------------------------------------------------ scenario
namespace {
double decimal(double x, int digits) {
  char b[64];
  std::snprintf(b, sizeof b, "%.*g", digits, x);
  return std::strtod(b, nullptr);
}

double pick_interval(double about, const char* tag) {
  static const double mant[] = {1, 2, 5, 2.5, 3, 7, 1.1, 1.3, 9, 6};
  const double e = std::floor(std::log10(about));
  return decimal(mant[sim::choose(10, tag)] * std::pow(10.0, e), 3);
}
} // namespace

std::string Scenario::text() const {
  static const char* eqs[] = {"Burgers1d", "Advection2d", "PerfectGas<1>", "PerfectGas<2>", "PerfectGas<3>"};
  static const char* sp[] = {"Godunov", "Strang", "StrangLumped"};
  std::string s = eqs[eq];
  s += method ? " muscl" : " first-order";
  s += simd ? " simd" : " seq";
  char b[512];
  std::snprintf(b, sizeof b,
                " cells=%dx%dx%d levels<=%d ratios=%d/%d/%d periodic=%d%d%d %s split=%s%s source=%s ranks=%d "
                "start=%.17g(%td) final=%.17g max_cycles=%td eps=%g cfl=%.3f backup=%d step_cost=%lldns",
                ncell[0], ncell[1], ncell[2], max_levels, ratio[1][0], rank > 1 ? ratio[1][1] : 0,
                max_levels > 2 ? ratio[2][0] : 0, periodic[0], periodic[1], periodic[2],
                subcycle ? "subcycling" : "no-subcycling", any_split ? "Any:" : "", sp[split],
                source ? sp[src_split] : "none", nranks, start_time, start_cycles, final_time, max_cycles, eps, cfl,
                do_backup, static_cast<long long>(step_cost_ns));
  s += b;
  for (const OutputSpec& o : outputs) {
    s += " out[" + std::to_string(o.kind) + ":";
    for (auto f : o.frequencies) {
      s += " f" + std::to_string(f);
    }
    for (double t : o.intervals) {
      std::snprintf(b, sizeof b, " i%.17g", t);
      s += b;
    }
    for (double t : o.times) {
      std::snprintf(b, sizeof b, " t%.17g", t);
      s += b;
    }
    s += "]";
  }
  for (const Fault& f : faults) {
    std::snprintf(b, sizeof b, " fault[%s attempt=%d index=%d rank=%d factor=%.4g]",
                  f.kind == FaultStableDt ? "stable-dt" : f.kind == FaultSource ? "source" : "post-level",
                  f.attempt, f.index, f.rank, f.factor);
    s += b;
  }
  return s;
}

namespace {
/// Coarsens the hierarchy until a coarse step is affordable.
void limit_work(Scenario& s, int calls) {
  const double limit = s.rank == 3 ? 40e3 : 60e3;
  for (;;) {
    double work = 0.0;
    double cells = 1.0;
    for (int d = 0; d < s.rank; ++d) {
      cells *= s.ncell[static_cast<std::size_t>(d)];
    }
    double sub = 1.0;
    double part = 1.0;
    for (int l = 0; l < s.max_levels; ++l) {
      int most = 1;
      for (int d = 0; d < s.rank && l > 0; ++d) {
        const int r = s.ratio[static_cast<std::size_t>(l)][static_cast<std::size_t>(d)];
        cells *= r;
        most = std::max(most, r);
      }
      sub *= s.subcycle ? most : 1;
      part *= l > 0 ? s.p_refine : 1.0;
      // Ghost cells make small patches more expensive.
      work += cells * part * sub * s.rank * calls * (1.0 + s.rank * 2.0 * s.ghost / s.block);
    }
    work *= equation_info(s.eq).gas ? (s.method == MethodMuscl ? 4.0 : 1.5) : 0.5;
    if (work <= limit || s.max_levels == 1) {
      return;
    }
    bool smaller = false;
    for (int l = s.max_levels - 1; l > 0 && !smaller; --l) {
      for (int d = 0; d < s.rank; ++d) {
        int& r = s.ratio[static_cast<std::size_t>(l)][static_cast<std::size_t>(d)];
        if (r > 2) {
          r = 2;
          smaller = true;
        }
      }
    }
    if (!smaller) {
      s.max_levels -= 1;
      for (int d = 0; d < s.rank; ++d) {
        s.ratio[static_cast<std::size_t>(s.max_levels)][static_cast<std::size_t>(d)] = 0;
      }
    }
  }
}
} // namespace

Scenario draw_scenario(const std::string& prop) {
  using sim::chance;
  using sim::choose;
  using sim::range;
  using sim::uniform;
  Scenario s;
  const bool schedule_only = prop == "C01" || prop == "C03"; // spatial side kept small
  static const int ranks_wide[] = {1, 1, 2, 2, 2, 3};
  static const int ranks_small[] = {1, 1, 1, 1, 2, 2};
  s.rank = schedule_only ? ranks_small[choose(6, "dim")] : ranks_wide[choose(6, "dim")];
  switch (s.rank) {
  case 1:
    s.eq = choose(2, "eq") == 0 ? EqBurgers : EqGas1;
    break;
  case 2:
    s.eq = choose(2, "eq") == 0 ? EqAdvection : EqGas2;
    break;
  default:
    s.eq = EqGas3;
  }
  s.method = s.rank < 3 ? static_cast<int>(choose(2, "method")) : MethodFirstOrder;
  s.simd = chance(0.4, "simd");
  if (equation_info(s.eq).gas && s.method != MethodFirstOrder) {
    s.simd = false; // the repository has no vectorised signal speeds for this pair
  }
  s.salt = choose(1 << 20, "salt");
  s.max_levels = 1 + static_cast<int>(schedule_only ? choose(2, "levels") : choose(s.rank == 3 ? 2 : 3, "levels"));
  if (prop == "C04" && s.max_levels == 1 && chance(0.8, "levels2")) {
    s.max_levels = 2;
  }
  s.subcycle = chance(0.65, "subcycle");
  const bool periodic_all = chance(0.5, "periodic");
  for (int d = 0; d < s.rank; ++d) {
    s.periodic[static_cast<std::size_t>(d)] =
        periodic_all || !(equation_info(s.eq).gas) || chance(0.5, "periodic-dir");
  }
  if (!equation_info(s.eq).gas) {
    s.periodic = {true, true, true};
  }
  static const int ratios[] = {2, 2, 2, 4, 3};
  for (int l = 1; l < s.max_levels; ++l) {
    const int r = ratios[choose(s.rank == 1 ? 5 : s.rank == 2 ? 4 : 3, "ratio")];
    for (int d = 0; d < s.rank; ++d) {
      int q = r;
      // Anisotropic refinement
      if (s.rank > 1 && chance(0.15, "aniso")) {
        q = r == 4 ? 2 : 1;
      }
      s.ratio[static_cast<std::size_t>(l)][static_cast<std::size_t>(d)] = q;
    }
  }
  s.block = s.rank == 3 ? 2 : 2 << choose(2, "block");
  const int nb = s.rank == 1 ? static_cast<int>(range(3, schedule_only ? 5 : 10, "blocks"))
                             : static_cast<int>(range(2, 4, "blocks"));
  for (int d = 0; d < s.rank; ++d) {
    int n = s.rank == 3 ? 6 + 2 * static_cast<int>(choose(2, "n3")) : std::max(8, nb * s.block);
    if (s.rank == 2) {
      n = std::min(n, 12);
      if (d == 1 && chance(0.3, "flat")) {
        n = 8;
      }
    }
    s.ncell[static_cast<std::size_t>(d)] = n;
  }
  s.block0 = s.rank == 1 ? 4 + 4 * static_cast<int>(choose(3, "block0")) : s.rank == 2 ? 4 + 2 * static_cast<int>(choose(3, "block0")) : 4;
  s.p_refine = uniform(0.25, 0.8, "p-refine");
  s.period = static_cast<int>(range(1, 4, "regrid-period"));
  s.split = static_cast<int>(choose(3, "split"));
  if (s.rank == 3 && s.split == SplitStrang && chance(0.5, "no-strang3")) {
    s.split = SplitGodunov;
  }
  s.any_split = s.rank == 2 && chance(0.3, "any-split");
  s.source = prop != "C05" && chance(schedule_only ? 0.2 : 0.35, "source");
  if (s.source) {
    s.src_split = static_cast<int>(choose(3, "src-split"));
    s.src_strength = uniform(0.0, 0.2, "src-strength");
  }
  // Ghost cells: one stencil width for every call of a direction per substep
  const int width = s.method == MethodMuscl ? 2 : 1;
  int calls = s.rank == 1 || s.split == SplitGodunov ? 1 : 2;
  if (s.source && s.src_split == SplitStrang) {
    calls *= 2;
  }
  s.ghost = width * calls;
  limit_work(s, calls);

  // Times
  const double dt0 = std::pow(10.0, uniform(-3.0, 3.0, "time-scale"));
  for (int d = 0; d < s.rank; ++d) {
    s.length[static_cast<std::size_t>(d)] = 3.0 * dt0 * s.ncell[static_cast<std::size_t>(d)];
  }
  s.cfl = chance(0.5, "cfl-default") ? 0.8 : uniform(0.2, 0.95, "cfl");
  const int nsteps = static_cast<int>(range(1, schedule_only ? 14 : s.rank == 3 ? 3 : 7, "steps"));
  const double about = std::max(1.0, nsteps * s.cfl) * dt0;
  s.eps = chance(0.5, "eps-default") && dt0 < 10.0 ? 1e-12 : decimal(dt0 * 1e-8, 2);
  if (chance(0.15, "restart")) {
    s.start_cycles = range(1, 50, "start-cycles");
    s.start_time = decimal(dt0 * uniform(0.3, 20.0, "start-time"), 4);
  }
  const double step = pick_interval(about / (1 + static_cast<double>(choose(5, "interval-count"))), "interval");
  switch (choose(4, "final-kind")) {
  case 0: { // decimal multiple, as a user writes it
    const double m = std::max(1.0, std::round(about / step));
    s.final_time = decimal(std::ceil(s.start_time / step + 1e-9) * step + m * step, 12);
    break;
  }
  case 1: { // multiple in floating-point arithmetic
    const double m = std::max(1.0, std::round(about / step));
    s.final_time = (std::ceil(s.start_time / step + 1e-9) + m) * step;
    break;
  }
  default:
    s.final_time = s.start_time + decimal(about * uniform(0.5, 1.0, "final"), 6) + step * 0.0137;
  }
  if (chance(0.2, "max-cycles")) {
    s.max_cycles = s.start_cycles + range(0, nsteps + 2, "max-cycles-n");
  }
  s.do_backup = prop == "C02" || prop == "C05" ? 1 : chance(0.12, "no-backup") ? 0 : 1;

  // Outputs
  const int nout = static_cast<int>(range(0, prop == "C03" ? 4 : 2, "outputs"));
  if (chance(0.5, "top-freq")) {
    s.top_freq.push_back(range(1, 6, "freq"));
  }
  if (chance(0.5, "top-int")) {
    s.top_int.push_back(step);
  }
  for (int i = 0; i < nout; ++i) {
    OutputSpec o;
    static const int kinds[] = {OutRecorder, OutRecorder, OutOptions, OutOptions, OutAsOutput, OutTimes};
    o.kind = kinds[choose(6, "out-kind")];
    const int nf = static_cast<int>(choose(3, "nfreq"));
    for (int k = 0; k < nf; ++k) {
      o.frequencies.push_back(range(1, 7, "freq"));
    }
    const int ni = static_cast<int>(choose(3, "nint"));
    for (int k = 0; k < ni; ++k) {
      switch (choose(4, "int-kind")) {
      case 0:
        o.intervals.push_back(step);
        break;
      case 1:
        o.intervals.push_back(2.0 * step);
        break;
      case 2:
        o.intervals.push_back(step / 3.0);
        break;
      default:
        o.intervals.push_back(decimal(about * uniform(0.15, 0.9, "interval-any"), 3));
      }
    }
    if (o.kind == OutTimes) {
      o.frequencies.clear();
      o.intervals.clear();
      const int n = static_cast<int>(range(1, 4, "ntimes"));
      for (int k = 0; k < n; ++k) {
        o.times.push_back(s.start_time + (s.final_time - s.start_time) * uniform(0.02, 1.1, "time"));
      }
      std::sort(o.times.begin(), o.times.end());
    }
    if (o.kind == OutOptions) {
      o.inherit_freq = chance(0.3, "inherit");
      o.inherit_int = chance(0.3, "inherit");
    }
    if (o.kind == OutAsOutput && s.eps != 1e-12) {
      o.kind = OutRecorder; // AsOutput has the default smallest step size only
    }
    s.outputs.push_back(o);
  }
  if (prop == "C08" && chance(0.3, "counter-output")) {
    OutputSpec o;
    o.kind = OutCounter;
    o.frequencies.push_back(range(1, 3, "freq"));
    s.outputs.push_back(o);
  }

  // Ranks
  if (prop == "C08") {
    s.nranks = static_cast<int>(range(2, 4, "ranks"));
  } else if (prop == "C06") {
    s.nranks = static_cast<int>(range(1, 4, "ranks"));
  } else if (prop == "C02" || prop == "C05") {
    s.nranks = chance(0.4, "parallel") ? static_cast<int>(range(2, 3, "ranks")) : 1;
  } else if (prop == "C01" || prop == "C03") {
    s.nranks = chance(0.1, "parallel") ? 2 : 1;
  }

  // Faults
  const bool reject = prop == "C02" || prop == "C06";
  const double pf = prop == "C04" ? 0.3 : reject ? 0.95 : 0.75;
  if (chance(pf, "faults")) {
    const int n = static_cast<int>(range(1, reject ? 7 : 5, "nfaults"));
    int attempt = static_cast<int>(choose(reject ? static_cast<uint64_t>(nsteps + 3) / 2 : static_cast<uint64_t>(nsteps) + 2, "fault-attempt"));
    for (int i = 0; i < n; ++i) {
      Fault f;
      f.attempt = attempt;
      f.kind = FaultStableDt;
      const double u = uniform(0.0, 1.0, "fault-kind");
      if (s.source && u > 0.7) {
        f.kind = FaultSource;
      } else if (u > 0.55) {
        f.kind = FaultPostLevel;
      }
      const int big = s.rank * (s.split == SplitGodunov ? 1 : 2) * (s.subcycle ? 4 : 2) * s.max_levels;
      f.index = static_cast<int>(choose(static_cast<uint64_t>(chance(0.5, "fault-late") ? big : 3), "fault-index"));
      f.rank = static_cast<int>(choose(4, "fault-rank"));
      switch (choose(5, "fault-size")) {
      case 0:
        f.factor = uniform(0.3, 0.99, "factor");
        break;
      case 1:
        f.factor = uniform(0.05, 0.5, "factor");
        break;
      case 2:
        f.factor = 1.0 - 1e-9;
        break;
      case 3:
        f.factor = 1.0;
        break;
      default:
        f.factor = uniform(0.45, 1.5, "factor");
      }
      s.faults.push_back(f);
      attempt += static_cast<int>(choose(3, "fault-gap"));
    }
  }

  // Clocks
  static const int64_t costs[] = {0, 1000, 1000000, 1000000000, 400000000000};
  s.step_cost_ns = costs[choose(5, "step-cost")];
  static const int64_t ages[] = {0, 1000000000, 3723000000000, 86400000000000, 5000};
  s.ref_age_ns = ages[choose(5, "ref-age")];
  for (int r = 0; r < s.nranks; ++r) {
    if (chance(0.3, "skew")) {
      sim::set_clock(r, range(0, 4, "offset") * 7777777777, 1.0 + 0.01 * static_cast<double>(choose(5, "rate")));
    }
  }
  return s;
}

// ------------------------------------------------------------------ runs
void scenario_run(const std::string& prop) {
  sim::enable_clock(true);
  if (prop == "C07" && sim::chance(0.5, "direct")) {
    check_splitting_direct();
    return;
  }
  const Scenario s = draw_scenario(prop);
  sim::describe(s.text());
  std::vector<RankRecord> recs = run_phase(s, s.nranks, ModeRunSimulation, true);
  int rejected = 0;
  for (const Attempt& a : recs[0].attempts) {
    rejected += !a.ok;
    sim::cover(sim::hash_of(a.dt) * 31 + a.ok);
  }
  sim::count("steps:accepted", static_cast<long long>(recs[0].steps.size()));
  sim::count("steps:rejected", rejected);
  sim::count("outputs", static_cast<long long>(recs[0].outputs.size()));
  sim::cover(sim::hash_of(s.salt));
  if (recs[0].steps.size() + static_cast<std::size_t>(rejected) > 0) {
    sim::mark_nontrivial();
  }
  if (prop == "C01") {
    for (const RankRecord& r : recs) {
      check_driver(s, r);
    }
  } else if (prop == "C02") {
    check_rollback(s, recs);
  } else if (prop == "C03") {
    for (const RankRecord& r : recs) {
      check_outputs(s, r);
    }
  } else if (prop == "C04") {
    check_lock_step(s, recs[0]);
  } else if (prop == "C05") {
    check_conservation(s, recs);
  } else if (prop == "C06") {
    check_rejections(s, recs);
  } else if (prop == "C07") {
    check_splitting_run(s, recs[0]);
  } else if (prop == "C08") {
    check_ranks(s, recs);
  } else {
    sim::harness_error("unknown property %s", prop.c_str());
  }
}
