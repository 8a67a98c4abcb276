// Oracles over recorded histories.
#include "drv.hpp"

#include <cmath>
#include <regex>

namespace {
std::size_t S(int i) { return static_cast<std::size_t>(i); }
constexpr double kMax = std::numeric_limits<double>::max();

double ulp(double x) {
  x = std::abs(x);
  return std::nextafter(x, kMax) - x;
}

bool close(double a, double b, double rel, double scale = 0.0) {
  return std::abs(a - b) <= rel * std::max({std::abs(a), std::abs(b), scale});
}

/// [ 12%] 00001: dt = 1.0e-3s wall-time: 00h:00m:0.1s (+1.0e-3s)
struct Line {
  double percent, cycle, dt, wall, diff;
};
bool parse_line(const std::string& s, Line& out) {
  static const std::regex re(
      R"(\[\s*(-?[0-9]+)%\]\s*(-?[0-9]+):\s*dt\s*=\s*([-+0-9.eE]+)s\s+wall-time:\s*(-?[0-9]+)h:\s*(-?[0-9]+)m:\s*([-+0-9.eE]+)s\s*\(\+\s*([-+0-9.eE]+)s\))");
  std::smatch m;
  if (!std::regex_search(s, m, re)) {
    return false;
  }
  out.percent = std::stod(m[1]);
  out.cycle = std::stod(m[2]);
  out.dt = std::stod(m[3]);
  out.wall = std::stod(m[4]) * 3600 + std::stod(m[5]) * 60 + std::stod(m[6]);
  out.diff = std::stod(m[7]);
  return true;
}

std::vector<double> accepted_dts(const RankRecord& r) {
  std::vector<double> v;
  for (const Step& s : r.steps) {
    v.push_back(r.attempts[s.attempt].dt);
  }
  return v;
}

int ratio_of(const Scenario& sc, int level) {
  if (!sc.subcycle) {
    return 1;
  }
  int n = 1;
  for (int l = 1; l <= level; ++l) {
    int m = 1;
    for (int d = 0; d < sc.rank; ++d) {
      m = std::max(m, sc.ratio[S(l)][S(d)]);
    }
    n *= m;
  }
  return n;
}
} // namespace

bool is_progress_line(const std::string& s) {
  Line l;
  return parse_line(s, l);
}

// ---------------------------------------------------------------- C01
void check_driver(const Scenario& sc, const RankRecord& rec) {
  const char* P = "C01";
  double t = sc.start_time;
  std::ptrdiff_t c = sc.start_cycles;
  std::size_t step = 0;
  const double tol = 4 * ulp(std::max(sc.final_time, t));
  for (std::size_t k = 0; k < rec.attempts.size(); ++k) {
    const Attempt& a = rec.attempts[k];
    if (a.t0 != t || a.c0 != c) {
      violate_for(P, "step-starts-elsewhere", "attempt %zu starts at t=%.17g cycle %td, accepted state is t=%.17g cycle %td", k, a.t0, a.c0, t, c);
    }
    if (!(t + sc.eps < sc.final_time)) {
      violate_for(P, "step-past-end", "attempt %zu starts at t=%.17g although the end time %.17g is reached", k, t, sc.final_time);
    }
    if (sc.max_cycles >= 0 && c >= sc.max_cycles) {
      violate_for(P, "step-past-cycle-limit", "attempt %zu starts at cycle %td, limit %td", k, c, sc.max_cycles);
    }
    if (k > 0 && !rec.attempts[k - 1].ok && !sc.do_backup) {
      violate_for(P, "continued-without-backup", "attempt %zu after a rejection without backup", k);
    }
    if (!(a.dt > 0.0)) {
      violate_for(P, "non-positive-step", "attempt %zu has dt=%.17g", k, a.dt);
    }
    if (!a.ok) {
      continue;
    }
    if (step >= rec.steps.size() || rec.steps[step].attempt != k) {
      if (step < rec.steps.size() && rec.steps[step].attempt < k) {
        violate_for(P, "post-hook-order", "accepted steps and post-step hooks do not match at attempt %zu", k);
      }
      violate_for(P, "missing-post-hook", "accepted attempt %zu has no post-step hook", k);
    }
    double limit = -1;
    const char* source = "estimate";
    if (k > 0 && !rec.attempts[k - 1].ok) {
      limit = rec.attempts[k - 1].err_dt;
      source = "size reported by the rejection";
      // An estimate taken again may only be smaller to matter.
    } else {
      for (const Estimate& e : rec.estimates) {
        if (e.attempt == k) {
          limit = e.returned;
        }
      }
    }
    if (limit < 0) {
      violate_for(P, "no-estimate", "attempt %zu was made without a stable-step estimate", k);
    }
    if (a.dt > sc.cfl * limit * (1 + 1e-12)) {
      violate_for(P, "beyond-cfl", "accepted attempt %zu has dt=%.17g > cfl %.3g times %s %.17g", k, a.dt, sc.cfl, source, limit);
    }
    const Step& s = rec.steps[step];
    if (std::abs(s.time - (t + a.dt)) > tol) {
      violate_for(P, "time-sum", "after attempt %zu the time is %.17g, expected %.17g + %.17g", k, s.time, t, a.dt);
    }
    if (s.cycle != c + 1) {
      violate_for(P, "cycle-count", "after attempt %zu the cycle is %td, expected %td", k, s.cycle, c + 1);
    }
    if (s.dt_post != a.dt) {
      violate_for(P, "post-hook-step", "post-step hook got dt=%.17g, the accepted step was %.17g", s.dt_post, a.dt);
    }
    if (s.time > sc.final_time + tol) {
      violate_for(P, "past-end-time", "accepted step ends at %.17g > end time %.17g", s.time, sc.final_time);
    }
    if (s.time > a.requested + tol) {
      violate_for(P, "past-output-time", "accepted step ends at %.17g, an output asked for %.17g", s.time, a.requested);
    }
    t = s.time;
    c = s.cycle;
    step += 1;
  }
  if (step != rec.steps.size()) {
    violate_for(P, "extra-post-hook", "%zu post-step hooks for %zu accepted steps", rec.steps.size(), step);
  }
  const bool reached = !(t + sc.eps < sc.final_time) || (sc.max_cycles >= 0 && c >= sc.max_cycles);
  const bool aborted = !rec.attempts.empty() && !rec.attempts.back().ok && !sc.do_backup;
  if (!reached && !aborted) {
    violate_for(P, "stopped-early", "the run ended at t=%.17g cycle %td, end time %.17g, cycle limit %td", t, c, sc.final_time, sc.max_cycles);
  }
  if (rec.final_time != t && !aborted) {
    violate_for(P, "final-time", "the solver is at %.17g after the run, last accepted %.17g", rec.final_time, t);
  }
  // Progress lines
  std::vector<std::pair<Line, const LogLine*>> lines;
  for (const LogLine& l : rec.lines) {
    Line x;
    if (parse_line(l.text, x)) {
      lines.push_back({x, &l});
    }
  }
  if (lines.size() != rec.steps.size()) {
    violate_for(P, "progress-lines", "%zu progress lines for %zu accepted steps", lines.size(), rec.steps.size());
  }
  int64_t previous = rec.start_clock;
  for (std::size_t i = 0; i < lines.size(); ++i) {
    const Line& l = lines[i].first;
    const LogLine& raw = *lines[i].second;
    const Step& s = rec.steps[i];
    const double dt = rec.attempts[s.attempt].dt;
    const double wall = 1e-9 * static_cast<double>(raw.clock - rec.ref_clock);
    const double diff = 1e-9 * static_cast<double>(raw.clock - previous);
    if (l.cycle != static_cast<double>(s.cycle) || raw.steps != i + 1) {
      violate_for(P, "progress-cycle", "progress line %zu '%s' belongs to cycle %td", i, raw.text.c_str(), s.cycle);
    }
    if (!close(l.dt, dt, 2e-6)) {
      violate_for(P, "progress-dt", "progress line '%s' belongs to a step of %.17g", raw.text.c_str(), dt);
    }
    if (std::abs(l.wall - wall) > 1e-3) {
      violate_for(P, "progress-wall-time", "progress line '%s' written %.9g s after the reference point", raw.text.c_str(), wall);
    }
    if (std::abs(l.diff - diff) > 1e-6 + 2e-6 * diff) {
      violate_for(P, "progress-wall-time-difference", "progress line '%s' written %.9g s after %s", raw.text.c_str(), diff, i ? "the previous line" : "the run started");
    }
    if (std::abs(l.percent - 100.0 * s.time / sc.final_time) > 1.0 + 1e-9) {
      violate_for(P, "progress-percent", "progress line '%s' at t=%.17g of %.17g", raw.text.c_str(), s.time, sc.final_time);
    }
    previous = raw.clock;
  }
}

// ---------------------------------------------------------------- C02
void check_rollback(const Scenario& sc, const std::vector<RankRecord>& recs) {
  const char* P = "C02";
  bool any_rejected = false;
  for (const RankRecord& rec : recs) {
    std::vector<std::string> hooks;
    for (const Step& s : rec.steps) {
      const double dt = rec.attempts[s.attempt].dt;
      char b[64];
      if (!rec.attempts[s.attempt].ok) {
        violate_for(P, "hook-for-rejected-step", "post-step hook after the rejected attempt %zu", s.attempt);
      }
      std::snprintf(b, sizeof b, "src %a", dt);
      if (sc.source) {
        hooks.push_back(b);
      }
      std::snprintf(b, sizeof b, "ctx %a", dt);
      hooks.push_back(b);
    }
    std::vector<std::string> got = rec.post_hooks;
    std::sort(hooks.begin(), hooks.end());
    std::sort(got.begin(), got.end());
    if (got != hooks) {
      violate_for(P, "post-step-hooks", "%zu post-step hook calls, %zu expected for the accepted steps", got.size(), hooks.size());
    }
    std::size_t lines = 0;
    for (const LogLine& l : rec.lines) {
      lines += is_progress_line(l.text);
    }
    std::size_t ok = 0;
    for (const Attempt& a : rec.attempts) {
      ok += a.ok;
      any_rejected = any_rejected || !a.ok;
    }
    if (lines != ok) {
      violate_for(P, "progress-line-for-rejected-step", "%zu progress lines, %zu accepted steps", lines, ok);
    }
    for (const OutputCall& o : rec.outputs) {
      // Only the grid: internal state of a source term is not visible.
      Snapshot grid = o.steps == 0 ? rec.initial : rec.steps[o.steps - 1].snap;
      grid.src_phase = 0;
      if (grid.hash() != o.hash) {
        violate_for(P, "output-of-rejected-state", "output %d at cycle %td saw a state that is not the last accepted one", o.id, o.cycle);
      }
    }
  }
  const std::vector<double> dts = accepted_dts(recs[0]);
  if (any_rejected) {
    sim::count("runs-with-rejection");
  }
  std::vector<RankRecord> clean = run_phase(sc, sc.nranks, ModeReplay, false, dts);
  for (std::size_t r = 0; r < recs.size(); ++r) {
    if (clean[r].aborted) {
      violate_for(P, "replay-rejected", "the accepted step sizes are rejected when no step was rejected before (step %zu of %zu)", clean[r].steps.size(), dts.size());
    }
    for (std::size_t i = 0; i < recs[r].steps.size(); ++i) {
      const Step& a = recs[r].steps[i];
      const Step& b = clean[r].steps[i];
      if (a.snap.hash() == b.snap.hash() && a.time == b.time && a.cycle == b.cycle) {
        continue;
      }
      std::string where = "layout";
      if (a.snap.patches.size() == b.snap.patches.size()) {
        where = "time or cycles";
        for (std::size_t p = 0; p < a.snap.patches.size(); ++p) {
          const PatchSnap& x = a.snap.patches[p];
          const PatchSnap& y = b.snap.patches[p];
          if (x.v != y.v) {
            double m = 0;
            for (std::size_t n = 0; n < x.v.size() && n < y.v.size(); ++n) {
              m = std::max(m, std::abs(x.v[n] - y.v[n]));
            }
            char buf[96];
            std::snprintf(buf, sizeof buf, "level %d patch %zu (largest difference %.3g)", x.level, p, m);
            where = buf;
            break;
          }
        }
      }
      violate_for(P, "state-differs", "rank %zu, after accepted step %zu (attempt %zu) the state differs from the same steps without rejections in %s", r, i, a.attempt, where.c_str());
    }
    if (recs[r].final_state.hash() != clean[r].final_state.hash() &&
        (recs[r].attempts.empty() || recs[r].attempts.back().ok)) {
      violate_for(P, "final-state-differs", "rank %zu: final state differs from the same steps without rejections", r);
    }
  }
}

// ---------------------------------------------------------------- C03
namespace {
enum Due { No, Maybe, Yes };
/// Is (cycle, time) due for the output?
Due due(const Scenario& sc, const OutputSpec& o, std::ptrdiff_t cycle, double t) {
  const auto& freq = o.inherit_freq && o.kind == OutOptions ? sc.top_freq : o.frequencies;
  const auto& ints = o.inherit_int && o.kind == OutOptions ? sc.top_int : o.intervals;
  Due d = No;
  auto at = [&](double x) {
    const double dist = std::abs(t - x);
    const double slack = 8 * ulp(std::max(t, x));
    const Due here = dist <= 1.5 * sc.eps + slack ? Yes : dist >= 3 * sc.eps + slack ? No : Maybe;
    d = std::max(d, here);
  };
  for (std::ptrdiff_t f : freq) {
    if (cycle % f == 0) {
      return Yes;
    }
  }
  if (o.kind == OutTimes) {
    for (double x : o.times) {
      at(x);
    }
    return d;
  }
  if (t == 0.0) {
    return Yes;
  }
  for (double i : ints) {
    at(std::round(t / i) * i);
  }
  return d;
}
} // namespace

void check_outputs(const Scenario& sc, const RankRecord& rec) {
  const char* P = "C03";
  struct State {
    double t;
    std::ptrdiff_t c;
    uint64_t hash;
  };
  std::vector<State> states;
  Snapshot g = rec.initial;
  states.push_back({sc.start_time, sc.start_cycles, g.hash()});
  for (const Step& s : rec.steps) {
    g = s.snap;
    g.src_phase = 0;
    states.push_back({s.time, s.cycle, g.hash()});
  }
  std::size_t last = 0;
  for (const OutputCall& o : rec.outputs) {
    if (o.steps < last) {
      violate_for(P, "output-order", "output %d at cycle %td is out of order", o.id, o.cycle);
    }
    last = o.steps;
    const State& s = states[o.steps];
    if (o.cycle != s.c || o.time != s.t || o.hash != s.hash) {
      violate_for(P, "output-of-other-state", "output %d saw cycle %td t=%.17g, the accepted state is cycle %td t=%.17g", o.id, o.cycle, o.time, s.c, s.t);
    }
  }
  for (std::size_t id = 0; id < sc.outputs.size(); ++id) {
    const OutputSpec& spec = sc.outputs[id];
    if (spec.kind == OutCounter) {
      continue;
    }
    std::vector<int> calls(states.size(), 0);
    for (const OutputCall& o : rec.outputs) {
      if (o.id == static_cast<int>(id)) {
        calls[o.steps] += 1;
      }
    }
    for (std::size_t i = 0; i < states.size(); ++i) {
      const Due d = due(sc, spec, states[i].c, states[i].t);
      if (calls[i] > 1) {
        violate_for(P, "duplicate-output", "output %zu was invoked %d times for cycle %td t=%.17g", id, calls[i], states[i].c, states[i].t);
      }
      if (d == Yes && calls[i] == 0) {
        // Without a backup a run gives up at a rejection; a due output of the
        // last accepted state was still to be written before.
        violate_for(P, "missed-output", "output %zu is due at cycle %td t=%.17g but was not invoked", id, states[i].c, states[i].t);
      }
      if (d == No && calls[i] > 0) {
        violate_for(P, "output-not-due", "output %zu was invoked at cycle %td t=%.17g without being due", id, states[i].c, states[i].t);
      }
    }
    // A step ends at every multiple.
    const auto& ints = spec.inherit_int && spec.kind == OutOptions ? sc.top_int : spec.intervals;
    const double end = states.back().t;
    auto reached = [&](double x) {
      for (const State& s : states) {
        if (std::abs(s.t - x) <= 2 * sc.eps + 8 * ulp(x)) {
          return true;
        }
      }
      return false;
    };
    auto require = [&](double x) {
      if (x > sc.start_time + 3 * sc.eps && x <= end + 1.5 * sc.eps && !reached(x)) {
        violate_for(P, "output-time-skipped", "output %zu asked for t=%.17g, no step ended there (run is at %.17g)", id, x, end);
      }
    };
    if (spec.kind == OutTimes) {
      for (double x : spec.times) {
        require(x);
      }
    } else {
      for (double i : ints) {
        for (double k = std::max(1.0, std::floor(sc.start_time / i)); k * i <= end + 1.5 * sc.eps; k += 1.0) {
          require(k * i);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- C04
void check_lock_step(const Scenario& sc, const RankRecord& rec) {
  const char* P = "C04";
  const EquationInfo e = equation_info(sc.eq);
  for (std::size_t n = 0; n < rec.steps.size(); ++n) {
    const Step& s = rec.steps[n];
    const Attempt& a = rec.attempts[s.attempt];
    const int nlev = static_cast<int>(s.snap.levels.size());
    for (int l = 0; l < nlev; ++l) {
      const int expect = ratio_of(sc, l);
      int ends = 0;
      double sum = 0.0;
      for (const LevelEnd& x : a.ends) {
        if (x.level != l) {
          continue;
        }
        ends += 1;
        sum += x.dt;
        const int second = l == 0 ? 1 : ratio_of(sc, l) / ratio_of(sc, l - 1);
        if (x.second != second || x.first < 0 || x.first >= second || !close(x.dt, a.dt / expect, 1e-12)) {
          violate_for(P, "substep", "step %zu level %d: substep %d of %d with dt=%.17g, coarse dt %.17g, ratio %d", n, l, x.first, x.second, x.dt, a.dt, expect);
        }
      }
      if (ends != expect || !close(sum, a.dt, 1e-12)) {
        violate_for(P, "substep-count", "step %zu: level %d made %d substeps of %.17g in total, expected %d of %.17g", n, l, ends, sum, expect, a.dt);
      }
      for (int d = 0; d < sc.rank; ++d) {
        double moved = 0.0;
        for (const PartialStep& p : a.parts) {
          moved += p.level == l && p.dir == d ? p.dt : 0.0;
        }
        if (!close(moved, a.dt * (sc.source && false ? 1 : 1), 1e-12)) {
          violate_for(P, "level-time", "step %zu: level %d moved by %.17g along direction %d, coarse step %.17g", n, l, moved, d, a.dt);
        }
      }
      if (sc.source) {
        double moved = 0.0;
        for (const SourceCall& c : a.sources) {
          moved += c.level == l ? c.dt : 0.0;
        }
        if (!close(moved, a.dt, 1e-12)) {
          violate_for(P, "level-source-time", "step %zu: source advanced by %.17g on level %d, coarse step %.17g", n, moved, l, a.dt);
        }
      }
      if (!close(s.ctx_times[S(l)], s.time, 1e-12) || s.snap.levels[S(l)].time != s.snap.levels[0].time) {
        violate_for(P, "level-times-differ", "step %zu: level %d is at %.17g, level 0 at %.17g", n, l, s.ctx_times[S(l)], s.time);
      }
    }
    // Covered cells and dependent variables
    std::vector<Fab> dense;
    for (int l = 0; l < nlev; ++l) {
      IBox dom;
      for (int d = 0; d < 3; ++d) {
        int m = d < sc.rank ? sc.ncell[S(d)] : 1;
        for (int q = 1; q <= l; ++q) {
          m *= d < sc.rank ? sc.ratio[S(q)][S(d)] : 1;
        }
        dom.lo[S(d)] = 0;
        dom.hi[S(d)] = m - 1;
      }
      dense.emplace_back(dom, e.ncomp, std::nan(""));
    }
    double maxv = 0;
    for (const PatchSnap& p : s.snap.patches) {
      std::size_t m = 0;
      for (int c = 0; c < e.ncomp; ++c) {
        for_each_cell(p.box, [&](int i, int j, int k) {
          maxv = std::max(maxv, std::abs(p.v[m]));
          dense[S(p.level)].at(i, j, k, c) = p.v[m++];
        });
      }
      std::vector<double> q(S(e.ncomp));
      for_each_cell(p.box, [&](int i, int j, int k) {
        for (int c = 0; c < e.ncomp; ++c) {
          q[S(c)] = dense[S(p.level)].at(i, j, k, c);
        }
        const double err = dependent_error(sc.eq, q.data());
        if (!(err <= 1e-9 * std::max(1.0, maxv))) {
          violate_for(P, "dependent-variables", "step %zu level %d cell (%d,%d,%d): dependent variables deviate by %.3g from the conserved ones", n, p.level, i, j, k, err);
        }
      });
    }
    for (int l = 0; l + 1 < nlev; ++l) {
      auto rr = [&](int d) { return d < sc.rank ? sc.ratio[S(l + 1)][S(d)] : 1; };
      const double vol = rr(0) * rr(1) * rr(2);
      for_each_cell(dense[S(l)].box, [&](int i, int j, int k) {
        IBox b;
        b.lo = {i * rr(0), j * rr(1), k * rr(2)};
        b.hi = {b.lo[0] + rr(0) - 1, b.lo[1] + rr(1) - 1, b.lo[2] + rr(2) - 1};
        const Fab& F = dense[S(l + 1)];
        if (std::isnan(dense[S(l)].at(i, j, k, 0)) || std::isnan(F.at(b.lo[0], b.lo[1], b.lo[2], 0))) {
          return;
        }
        for (int c = 0; c < e.ncons; ++c) {
          double avg = 0;
          for_each_cell(b, [&](int x, int y, int z) { avg += F.at(x, y, z, c); });
          avg /= vol;
          if (!close(avg, dense[S(l)].at(i, j, k, c), 1e-12, maxv)) {
            violate_for(P, "covered-cell", "step %zu: covered cell (%d,%d,%d) on level %d has %.17g, average of the finer cells %.17g", n, i, j, k, l, dense[S(l)].at(i, j, k, c), avg);
          }
        }
      });
    }
  }
  // Reference
  RankRecord scratch;
  RankCtx rc;
  rc.sc = &sc;
  rc.rec = &scratch;
  rc.faults = false;
  g_rc = &rc;
  sim::mpi_init(1);
  Reference ref(sc, 0, 1, MPI_COMM_SELF);
  for (std::size_t n = 0; n < rec.steps.size(); ++n) {
    const Step& s = rec.steps[n];
    ref.Step(rec.attempts[s.attempt].dt);
    const Snapshot want = ref.ctx.grid().snapshot();
    if (want.patches.size() != s.snap.patches.size()) {
      violate_for(P, "layout-differs", "step %zu: %zu patches, the reference has %zu", n, s.snap.patches.size(), want.patches.size());
    }
    for (std::size_t p = 0; p < want.patches.size(); ++p) {
      const PatchSnap& x = s.snap.patches[p];
      const PatchSnap& y = want.patches[p];
      if (x.level != y.level || !(x.box == y.box)) {
        violate_for(P, "layout-differs", "step %zu: patch %zu differs from the reference", n, p);
      }
      for (std::size_t i = 0; i < x.v.size(); ++i) {
        if (!close(x.v[i], y.v[i], 1e-8, 1e-2)) {
          violate_for(P, "differs-from-reference", "step %zu (attempt %zu) level %d patch %zu entry %zu: %.17g, the reference recursion gives %.17g", n, s.attempt, x.level, p, i, x.v[i], y.v[i]);
        }
      }
    }
  }
  g_rc = nullptr;
}

// ---------------------------------------------------------------- C05
void check_conservation(const Scenario& sc, const std::vector<RankRecord>& recs) {
  const char* P = "C05";
  const EquationInfo e = equation_info(sc.eq);
  auto totals = [&](auto get, std::vector<double>& mag) {
    std::vector<double> sum(S(e.ncons), 0.0);
    mag.assign(S(e.ncons), 0.0);
    const Snapshot& first = get(recs[0]);
    const int nlev = static_cast<int>(first.levels.size());
    std::array<int, 3> n = sc.ncell;
    double vol = 1.0;
    for (int l = 0; l < nlev; ++l) {
      if (l > 0) {
        for (int d = 0; d < sc.rank; ++d) {
          n[S(d)] *= sc.ratio[S(l)][S(d)];
          vol /= sc.ratio[S(l)][S(d)];
        }
      }
      IBox dom;
      for (int d = 0; d < 3; ++d) {
        dom.lo[S(d)] = 0;
        dom.hi[S(d)] = (d < sc.rank ? n[S(d)] : 1) - 1;
      }
      Fab covered(dom, 1, 0.0);
      if (l + 1 < nlev) {
        for (const IBox& b : first.levels[S(l + 1)].boxes) {
          IBox cb;
          for (int d = 0; d < 3; ++d) {
            const int r = d < sc.rank ? sc.ratio[S(l + 1)][S(d)] : 1;
            cb.lo[S(d)] = b.lo[S(d)] / r;
            cb.hi[S(d)] = b.hi[S(d)] / r;
          }
          for_each_cell(cb, [&](int i, int j, int k) { covered.at(i, j, k, 0) = 1.0; });
        }
      }
      for (const RankRecord& rec : recs) {
        for (const PatchSnap& p : get(rec).patches) {
          if (p.level != l) {
            continue;
          }
          std::size_t m = 0;
          for (int c = 0; c < e.ncons; ++c) {
            for_each_cell(p.box, [&](int i, int j, int k) {
              if (covered.at(i, j, k, 0) == 0.0) {
                sum[S(c)] += vol * p.v[m];
                mag[S(c)] += vol * std::abs(p.v[m]);
              }
              ++m;
            });
          }
        }
      }
    }
    return sum;
  };
  std::vector<double> mag0;
  const std::vector<double> start = totals([](const RankRecord& r) -> const Snapshot& { return r.initial; }, mag0);
  for (std::size_t i = 0; i < recs[0].steps.size(); ++i) {
    std::vector<double> mag;
    const std::vector<double> now =
        totals([i](const RankRecord& r) -> const Snapshot& { return r.steps[i].snap; }, mag);
    for (int c = 0; c < e.ncons; ++c) {
      if (e.gas && c >= 1 && c <= e.rank && !sc.periodic[S(c - 1)]) {
        continue; // walls exert forces
      }
      const double scale = std::max(mag[S(c)], mag0[S(c)]) + mag0[0];
      if (!(std::abs(now[S(c)] - start[S(c)]) <= 1e-12 * scale * static_cast<double>(10 + i))) {
        violate_for(P, "total-changed", "after step %zu the total of quantity %d is %.17g, initially %.17g (relative change %.3g)", i, c, now[S(c)], start[S(c)], (now[S(c)] - start[S(c)]) / scale);
      }
    }
  }
}

// ---------------------------------------------------------------- C06
void check_rejections(const Scenario& sc, const std::vector<RankRecord>& recs) {
  const char* P = "C06";
  const std::size_t n = recs[0].attempts.size();
  for (std::size_t r = 1; r < recs.size(); ++r) {
    if (recs[r].attempts.size() != n) {
      violate_for(P, "ranks-disagree", "rank 0 attempted %zu steps, rank %zu %zu", n, r, recs[r].attempts.size());
    }
  }
  for (std::size_t k = 0; k < n; ++k) {
    const Attempt& a0 = recs[0].attempts[k];
    for (std::size_t r = 1; r < recs.size(); ++r) {
      const Attempt& a = recs[r].attempts[k];
      if (a.ok != a0.ok || a.err_dt != a0.err_dt || a.dt != a0.dt) {
        violate_for(P, "ranks-disagree", "attempt %zu: rank 0 dt=%.17g %s (%.17g), rank %zu dt=%.17g %s (%.17g)", k, a0.dt, a0.ok ? "accepted" : "rejected", a0.err_dt, r, a.dt, a.ok ? "accepted" : "rejected", a.err_dt);
      }
    }
    // No too large partial step is carried out.
    for (std::size_t i = 0; i < a0.parts.size(); ++i) {
      double bound = kMax;
      std::size_t who = 0;
      for (std::size_t r = 0; r < recs.size(); ++r) {
        const Attempt& a = recs[r].attempts[k];
        if (i < a.parts.size() && a.parts[i].bound < bound) {
          bound = a.parts[i].bound;
          who = r;
        }
      }
      if (bound < a0.parts[i].dt * (1 - 1e-12)) {
        violate_for(P, "too-large-step-taken", "attempt %zu, partial step %zu (level %d direction %d) takes dt=%.17g although rank %zu allows %.17g only", k, i, a0.parts[i].level, a0.parts[i].dir, a0.parts[i].dt, who, bound);
      }
    }
    if (!a0.ok) {
      double expect = -1;
      if (a0.own_failure_level >= 0) {
        expect = a0.own_failure_dt * ratio_of(sc, a0.own_failure_level);
      } else if (!a0.sources.empty() && !a0.sources.back().ok) {
        expect = a0.sources.back().err_dt * ratio_of(sc, a0.sources.back().level);
      } else {
        double gmin = kMax, about = 0;
        int level = -1;
        for (const RankRecord& rec : recs) {
          const Attempt& a = rec.attempts[k];
          for (const CheckRec& c : a.checks) {
            if (c.index == static_cast<int>(a0.parts.size())) {
              gmin = std::min(gmin, c.local);
              about = c.about;
              level = c.level;
            }
          }
        }
        if (level < 0 || !(gmin < about)) {
          violate_for(P, "rejected-without-cause", "attempt %zu was rejected after %zu partial steps although every rank allows %.17g for a step of %.17g", k, a0.parts.size(), gmin, about);
        }
        expect = gmin * ratio_of(sc, level);
      }
      if (!close(a0.err_dt, expect, 1e-12)) {
        violate_for(P, "reported-size", "attempt %zu was rejected with size %.17g, expected %.17g", k, a0.err_dt, expect);
      }
    }
  }
  for (std::size_t i = 0; i < recs[0].estimates.size(); ++i) {
    double truth = kMax;
    for (const RankRecord& rec : recs) {
      if (i < rec.estimates.size()) {
        truth = std::min(truth, rec.estimates[i].truth_local);
      }
    }
    for (std::size_t r = 0; r < recs.size(); ++r) {
      if (i >= recs[r].estimates.size()) {
        violate_for(P, "ranks-disagree", "rank %zu took fewer estimates", r);
      }
      if (!close(recs[r].estimates[i].returned, truth, 1e-12)) {
        violate_for(P, "estimate", "estimate before attempt %zu on rank %zu is %.17g, the minimum over levels, directions, sources and ranks is %.17g", recs[r].estimates[i].attempt, r, recs[r].estimates[i].returned, truth);
      }
    }
  }
}

// ---------------------------------------------------------------- C07
namespace {
struct Partial {
  int op;
  double dt;
};
struct OpLog {
  std::vector<Partial> calls;
  int fail_at{-1};
  double fail_dt{0};
  int fail_level{0};
  bool failed{false};
  int after_failure{0};
  fub::Result<void, fub::TimeStepTooLarge> Run(int op, fub::Duration dt) {
    after_failure += failed;
    calls.push_back({op, dt.count()});
    sim::yield("operator");
    if (static_cast<int>(calls.size()) - 1 == fail_at) {
      failed = true;
      sim::count("fault:operator-failure");
      return fub::TimeStepTooLarge{fub::Duration(fail_dt), fail_level};
    }
    return boost::outcome_v2::success();
  }
};
} // namespace

void check_splitting_direct() {
  const char* P = "C07";
  const int split = static_cast<int>(sim::choose(3, "split"));
  const int nops = static_cast<int>(sim::range(1, 5, "operators"));
  const bool any = sim::chance(0.4, "any") && nops > 1;
  const bool recursive = sim::chance(0.5, "recursive");
  const double dt = std::pow(10.0, sim::uniform(-9.0, 4.0, "dt"));
  OpLog log;
  if (sim::chance(0.5, "fails")) {
    log.fail_at = static_cast<int>(sim::choose(static_cast<uint64_t>(nops) * 4, "fail-at"));
    log.fail_dt = dt * sim::uniform(0.01, 1.2, "fail-dt");
    log.fail_level = static_cast<int>(sim::choose(5, "fail-level"));
  }
  static const char* names[] = {"Godunov", "Strang", "StrangLumped"};
  char d[200];
  std::snprintf(d, sizeof d, "splitting %s%s operators=%d recursive=%d dt=%g fail_at=%d", any ? "Any:" : "", names[split], nops, recursive, dt, log.fail_at);
  sim::describe(d);
  auto f = [&](int op) { return [&log, op](fub::Duration t) { return log.Run(op, t); }; };
  auto f0 = f(0);
  auto f1 = f(1);
  auto f2 = f(2);
  auto f3 = f(3);
  auto f4 = f(4);
  const fub::Duration step(dt);
  fub::Result<void, fub::TimeStepTooLarge> result = boost::outcome_v2::success();
  auto go = [&](const auto& m) {
    using M = std::decay_t<decltype(m)>;
    switch (nops) {
    case 1:
      if constexpr (!std::is_same_v<M, fub::AnySplitMethod>) {
        result = m.Advance(step, f0);
      }
      break;
    case 2:
      result = recursive ? m.AdvanceRecursively(step, f0, f1) : m.Advance(step, f0, f1);
      break;
    case 3:
      if constexpr (!std::is_same_v<M, fub::AnySplitMethod>) {
        if (!recursive) {
          result = m.Advance(step, f0, f1, f2);
          break;
        }
      }
      result = m.AdvanceRecursively(step, f0, f1, f2);
      break;
    case 4:
      result = m.AdvanceRecursively(step, f0, f1, f2, f3);
      break;
    default:
      result = m.AdvanceRecursively(step, f0, f1, f2, f3, f4);
    }
  };
  if (any) {
    fub::AnySplitMethod m = any_split(SplitGodunov);
    m = any_split(split);
    go(m);
  } else if (split == SplitGodunov) {
    go(fub::GodunovSplitting());
  } else if (split == SplitStrang) {
    go(fub::StrangSplitting());
  } else {
    go(fub::StrangSplittingLumped());
  }
  sim::mark_nontrivial();
  uint64_t h = sim::hash_of(log.calls.size());
  for (const Partial& c : log.calls) {
    h = sim::hash_of(c.op, h);
    h = sim::hash_of(c.dt / dt, h);
  }
  sim::cover(sim::hash_of(log.fail_at, h));
  if (log.after_failure > 0) {
    violate_for(P, "operator-after-failure", "%d operator calls after the failed call %d", log.after_failure, log.fail_at);
  }
  if (log.failed) {
    if (!result.has_error()) {
      violate_for(P, "failure-lost", "call %d failed but the splitting reports success", log.fail_at);
    }
    if (result.error().dt.count() != log.fail_dt || result.error().level != log.fail_level) {
      violate_for(P, "failure-changed", "failure (%.17g, level %d) was reported as (%.17g, level %d)", log.fail_dt, log.fail_level, result.error().dt.count(), result.error().level);
    }
    for (const Partial& c : log.calls) {
      if (!(c.dt > 0.0)) {
        violate_for(P, "partial-step", "operator %d gets a step of %.17g", c.op, c.dt);
      }
    }
    return;
  }
  if (result.has_error()) {
    violate_for(P, "failure-invented", "no operator failed but the splitting reports a failure");
  }
  std::vector<double> sum(S(nops), 0.0);
  for (const Partial& c : log.calls) {
    if (!(c.dt > 0.0) || c.op >= nops) {
      violate_for(P, "partial-step", "operator %d gets a step of %.17g", c.op, c.dt);
    }
    sum[S(c.op)] += c.dt;
  }
  for (int i = 0; i < nops; ++i) {
    if (!close(sum[S(i)], dt, 1e-13)) {
      violate_for(P, "operator-time", "operator %d advanced by %.17g in total, the step is %.17g", i, sum[S(i)], dt);
    }
  }
  if (log.calls.empty() || log.calls.front().op != 0) {
    violate_for(P, "order", "the sequence starts with operator %d", log.calls.empty() ? -1 : log.calls.front().op);
  }
  if (split == SplitGodunov) {
    for (std::size_t i = 0; i < log.calls.size(); ++i) {
      if (log.calls.size() != S(nops) || log.calls[i].op != static_cast<int>(i)) {
        violate_for(P, "order", "first-order splitting calls operator %d as number %zu of %zu", log.calls[i].op, i, log.calls.size());
      }
    }
  } else {
    const std::size_t n = log.calls.size();
    for (std::size_t i = 0; i < n; ++i) {
      if (log.calls[i].op != log.calls[n - 1 - i].op || !close(log.calls[i].dt, log.calls[n - 1 - i].dt, 1e-13)) {
        violate_for(P, "not-symmetric", "call %zu (operator %d, %.17g) is not mirrored by call %zu (operator %d, %.17g)", i, log.calls[i].op, log.calls[i].dt, n - 1 - i, log.calls[n - 1 - i].op, log.calls[n - 1 - i].dt);
      }
    }
    // first occurrences in the given order
    int next = 0;
    for (const Partial& c : log.calls) {
      if (c.op > next) {
        violate_for(P, "order", "operator %d runs before operator %d", c.op, next);
      }
      next = std::max(next, c.op + 1);
    }
  }
}

void check_splitting_run(const Scenario& sc, const RankRecord& rec) {
  const char* P = "C07";
  struct Key {
    std::ptrdiff_t cycle;
    int first;
    std::vector<int> order;
  };
  std::vector<std::vector<Key>> per_level(4);
  for (std::size_t k = 0; k < rec.attempts.size(); ++k) {
    const Attempt& a = rec.attempts[k];
    if (a.ops_after_failure > 0) {
      violate_for(P, "operator-after-failure", "attempt %zu: %d operator calls after a source term failed", k, a.ops_after_failure);
    }
    if (!a.ok && !a.sources.empty() && !a.sources.back().ok && a.own_failure_level < 0) {
      const SourceCall& c = a.sources.back();
      if (!close(a.err_dt, c.err_dt * ratio_of(sc, c.level), 1e-12)) {
        violate_for(P, "failure-changed", "attempt %zu: source failure %.17g on level %d reported as %.17g", k, c.err_dt, c.level, a.err_dt);
      }
    }
    if (!a.ok) {
      continue;
    }
    // Split the partial steps at the level ends.
    std::size_t from = 0;
    for (const LevelEnd& e : a.ends) {
      std::vector<PartialStep> mine;
      for (std::size_t i = from; i < e.nparts; ++i) {
        if (a.parts[i].level == e.level) {
          mine.push_back(a.parts[i]);
        }
      }
      from = e.nparts;
      std::vector<int> order;
      std::array<double, 3> sum{0, 0, 0};
      for (const PartialStep& p : mine) {
        sum[S(p.dir)] += p.dt;
        if (std::find(order.begin(), order.end(), p.dir) == order.end()) {
          order.push_back(p.dir);
        }
        if (!(p.dt > 0.0)) {
          violate_for(P, "partial-step", "attempt %zu level %d: partial step %.17g", k, e.level, p.dt);
        }
      }
      for (int d = 0; d < sc.rank; ++d) {
        if (!close(sum[S(d)], e.dt, 1e-12)) {
          violate_for(P, "operator-time", "attempt %zu level %d: direction %d advanced by %.17g, the step is %.17g", k, e.level, d, sum[S(d)], e.dt);
        }
      }
      if (sc.split != SplitGodunov || (sc.source && sc.src_split != SplitGodunov)) {
        for (std::size_t i = 0; sc.split != SplitGodunov && i < mine.size(); ++i) {
          const PartialStep& x = mine[i];
          const PartialStep& y = mine[mine.size() - 1 - i];
          if (x.dir != y.dir || !close(x.dt, y.dt, 1e-12)) {
            violate_for(P, "not-symmetric", "attempt %zu level %d: the partial steps of a symmetric splitting do not read the same backwards", k, e.level);
          }
        }
      }
      auto& hist = per_level[S(e.level)];
      if (!hist.empty()) {
        const Key& b = hist.back();
        const bool next_substep = b.cycle == a.c0 && e.first == b.first + 1;
        if (next_substep) {
          std::vector<int> rev(b.order.rbegin(), b.order.rend());
          if (rev != order) {
            violate_for(P, "directions-not-alternating", "cycle %td level %d: substeps %d and %d use the same order of directions", a.c0, e.level, b.first, e.first);
          }
        }
      }
      for (const Key& b : hist) {
        if (b.cycle == a.c0 - 1 && b.first == e.first) {
          std::vector<int> rev(b.order.rbegin(), b.order.rend());
          if (rev != order) {
            violate_for(P, "directions-not-alternating", "level %d substep %d: cycles %td and %td use the same order of directions", e.level, e.first, b.cycle, a.c0);
          }
        }
      }
      hist.push_back({a.c0, e.first, order});
    }
  }
}

// ---------------------------------------------------------------- C08
void check_ranks(const Scenario& sc, const std::vector<RankRecord>& recs) {
  const char* P = "C08";
  const RankRecord& z = recs[0];
  for (std::size_t r = 1; r < recs.size(); ++r) {
    const RankRecord& x = recs[r];
    if (x.attempts.size() != z.attempts.size() || x.steps.size() != z.steps.size()) {
      violate_for(P, "different-history", "rank 0 made %zu attempts (%zu accepted), rank %zu %zu (%zu)", z.attempts.size(), z.steps.size(), r, x.attempts.size(), x.steps.size());
    }
    for (std::size_t k = 0; k < z.attempts.size(); ++k) {
      if (x.attempts[k].dt != z.attempts[k].dt || x.attempts[k].ok != z.attempts[k].ok || x.attempts[k].err_dt != z.attempts[k].err_dt) {
        violate_for(P, "different-history", "attempt %zu: rank 0 dt=%.17g ok=%d, rank %zu dt=%.17g ok=%d", k, z.attempts[k].dt, z.attempts[k].ok, r, x.attempts[k].dt, x.attempts[k].ok);
      }
    }
    for (std::size_t k = 0; k < z.steps.size(); ++k) {
      if (x.steps[k].time != z.steps[k].time || x.steps[k].cycle != z.steps[k].cycle) {
        violate_for(P, "different-history", "step %zu: rank 0 is at %.17g, rank %zu at %.17g", k, z.steps[k].time, r, x.steps[k].time);
      }
    }
    if (x.outputs.size() != z.outputs.size()) {
      violate_for(P, "different-outputs", "rank 0 made %zu outputs, rank %zu %zu", z.outputs.size(), r, x.outputs.size());
    }
    for (std::size_t k = 0; k < z.outputs.size(); ++k) {
      if (x.outputs[k].id != z.outputs[k].id || x.outputs[k].cycle != z.outputs[k].cycle) {
        violate_for(P, "different-outputs", "output %zu differs between rank 0 and rank %zu", k, r);
      }
    }
  }
  // The same run on a single rank
  Scenario single = sc;
  single.nranks = 1;
  std::vector<RankRecord> one = run_phase(single, 1, ModeRunSimulation, true);
  const RankRecord& o = one[0];
  if (o.attempts.size() != z.attempts.size()) {
    violate_for(P, "differs-from-single-rank", "%zu attempts, on a single rank %zu", z.attempts.size(), o.attempts.size());
  }
  for (std::size_t k = 0; k < o.attempts.size(); ++k) {
    if (o.attempts[k].dt != z.attempts[k].dt || o.attempts[k].ok != z.attempts[k].ok) {
      violate_for(P, "differs-from-single-rank", "attempt %zu: dt=%.17g ok=%d, on a single rank dt=%.17g ok=%d", k, z.attempts[k].dt, z.attempts[k].ok, o.attempts[k].dt, o.attempts[k].ok);
    }
  }
  for (std::size_t k = 0; k < o.steps.size(); ++k) {
    const Snapshot& want = o.steps[k].snap;
    std::size_t found = 0;
    for (const RankRecord& rec : recs) {
      for (const PatchSnap& p : rec.steps[k].snap.patches) {
        for (const PatchSnap& w : want.patches) {
          if (w.level == p.level && w.box == p.box) {
            found += 1;
            if (std::memcmp(w.v.data(), p.v.data(), w.v.size() * sizeof(double)) != 0) {
              violate_for(P, "differs-from-single-rank", "after step %zu a patch on level %d differs from the run on a single rank", k, p.level);
            }
          }
        }
      }
    }
    if (found != want.patches.size()) {
      violate_for(P, "differs-from-single-rank", "after step %zu there are %zu patches, %zu on a single rank", k, found, want.patches.size());
    }
  }
  if (o.outputs.size() != z.outputs.size()) {
    violate_for(P, "differs-from-single-rank", "%zu outputs, on a single rank %zu", z.outputs.size(), o.outputs.size());
  }
}
