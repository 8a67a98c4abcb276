// Numerical kernels on patches, used by teams of simulated OpenMP threads (C14).
#include "common/isolated.hpp"
#include "omp/gomp.hpp"
#include "omp/kernel.hpp"
#include "sim.hpp"

#include "fub/ext/omp.hpp"

#include <algorithm>
#include <cmath>
#include <deque>
#include <limits>
#include <stdexcept>

namespace omp {
namespace {
using sim::chance;
using sim::choose;
using sim::uniform;
using Vec = std::vector<double>;

constexpr double kCanary = -1.2345678901234567e+271;
const double kNan = std::numeric_limits<double>::quiet_NaN();

enum What { kFlux, kDt, kComplete, kUpdate };
const char* const kWhat[] = {"fluxes", "stable dt", "complete from cons", "update"};

struct Job {
  int kernel = 0;
  What what = kFlux;
  int policy = kSeq;
  int rank = 1, dir = 0;
  double dt = 0, dx = 1;
  bool poisoned = false, alias = false;
  Box out;  // what is computed: faces or cells
  Box in;   // what is handed over: cells, or faces for updates
  Field src, prev, dst;
  // the same, alone
  bool skip = false;
  Vec alone;
  double alone_dt = 0;
  // cell by cell
  Vec single, scale;
  double single_dt = 0;
  // with the same policy, face by face
  Vec lane;
  double lane_dt = 0;
  // as it was
  double got_dt = 0;
  std::string error;
};

std::string text(const Job& j, const Info& k) {
  char b[300];
  std::snprintf(b, sizeof b, "%s of '%s' with %s on %td x %td x %td, direction %d%s", kWhat[j.what],
                j.what == kUpdate ? "-" : k.name.c_str(), kPolicyName[j.policy], j.out.hi[0] - j.out.lo[0],
                j.out.hi[1] - j.out.lo[1], j.out.hi[2] - j.out.lo[2], j.dir, j.poisoned ? ", unphysical" : "");
  return b;
}

Field surround(const Box& b, int comps, int rank, double fill) {
  Box a = b;
  for (int d = 0; d < rank; ++d) {
    const auto m = static_cast<std::size_t>(d);
    a.lo[m] -= static_cast<std::ptrdiff_t>(choose(3, "room"));
    a.hi[m] += static_cast<std::ptrdiff_t>(choose(3, "room"));
  }
  return Field(a, comps, fill);
}

Box draw_box(int rank) {
  Box b;
  for (int d = 0; d < 3; ++d) {
    const auto m = static_cast<std::size_t>(d);
    if (d >= rank) {
      b.lo[m] = 0;
      b.hi[m] = 1;
      continue;
    }
    b.lo[m] = static_cast<std::ptrdiff_t>(choose(3, "lo")) * (chance(0.3, "far") ? -7 : 1);
    std::ptrdiff_t n = 1;
    if (d == 0) {
      n = 1 + static_cast<std::ptrdiff_t>(choose(chance(0.15, "long") ? 40 : 19, "n0"));
    } else {
      n = 1 + static_cast<std::ptrdiff_t>(choose(4, "n"));
    }
    b.hi[m] = b.lo[m] + n;
  }
  return b;
}

/// Something no scheme can make sense of.
void poison(Job& j, Rng& rng) {
  const int how = static_cast<int>(choose(5, "poison"));
  const double bad[] = {kNan, -1e5, std::numeric_limits<double>::infinity(), 0.0, 1e300};
  const double x = bad[how];
  const bool all = chance(0.5, "everywhere");
  for (double& v : j.src.v) {
    if (v == v && (all || rng.unit() > 0.5)) {
      v = x;
    }
  }
  j.poisoned = true;
  static const char* const name[] = {"NaN", "negative", "infinite", "zero", "huge"};
  sim::count(std::string("fault:unphysical patch (") + name[how] + ")");
}

Job draw_job(const std::vector<const Info*>& kernels, const std::vector<Kernel*>& makers) {
  Job j;
  j.kernel = static_cast<int>(choose(kernels.size(), "kernel"));
  const Info& k = *kernels[static_cast<std::size_t>(j.kernel)];
  Kernel& maker = *makers[static_cast<std::size_t>(j.kernel)];
  const uint64_t w = choose(10, "what");
  j.what = w < 5 ? kFlux : w < 7 ? kDt : w < 8 ? kComplete : kUpdate;
  if (j.what == kComplete && !k.has_complete) {
    j.what = kFlux;
  }
  const int first = kDefault;
  j.policy = first + static_cast<int>(choose(kPolicies, "policy"));
  if (!k.simd && (j.what == kFlux || j.what == kDt) && (j.policy == kSimd || j.policy == kOpenMpSimd)) {
    j.policy = j.policy == kSimd ? kSeq : kOpenMp;
  }
  j.rank = j.what == kUpdate ? 1 + static_cast<int>(choose(3, "rank")) : k.rank;
  j.dir = static_cast<int>(choose(static_cast<uint64_t>(j.what == kUpdate ? j.rank : k.dirs), "dir"));
  j.dx = uniform(0.01, 2, "dx");
  Rng rng{choose(1u << 30, "values")};
  const double r = std::exp(uniform(std::log(1e-3), 0, "contrast"));
  j.out = draw_box(j.rank);
  if (j.what == kUpdate) {
    const int comps = 1 + static_cast<int>(choose(6, "components"));
    j.in = j.out.grown(j.dir, 0, 1);
    for (int d = 0; d < j.rank; ++d) {
      if (chance(0.3, "more-faces")) {
        j.in = j.in.grown(d, static_cast<std::ptrdiff_t>(choose(2, "m")), static_cast<std::ptrdiff_t>(choose(2, "m")));
      }
    }
    j.src = Field(j.in, comps, kNan);
    const Box need = j.out.grown(j.dir, 0, 1);
    j.dst = surround(j.out, comps, j.rank, kCanary);
    j.prev = surround(j.out, comps, j.rank, kNan);
    for (int c = 0; c < comps; ++c) {
      each(need, [&](Idx i) { j.src(c, i) = 100 * r * rng.unit(); });
      each(j.out, [&](Idx i) { j.prev(c, i) = 10 * rng.unit(); });
    }
    j.dt = uniform(1e-4, 1, "dt");
    j.alias = chance(0.4, "in-place");
    if (j.alias) {
      for (int c = 0; c < comps; ++c) {
        each(j.out, [&](Idx i) { j.dst(c, i) = j.prev(c, i); });
      }
    }
  } else {
    const Box need = j.what == kFlux ? j.out.grown(j.dir, k.width, k.width - 1) : j.out;
    if (j.what == kDt) {
      j.out = j.out.grown(j.dir, 0, 2 * k.width - 1);
    }
    const Box cells = j.what == kFlux ? need : j.out;
    j.in = cells;
    if (j.what == kFlux) {
      for (int d = 0; d < j.rank; ++d) {
        if (chance(0.3, "more-cells")) {
          j.in = j.in.grown(d, static_cast<std::ptrdiff_t>(choose(2, "m")), static_cast<std::ptrdiff_t>(choose(2, "m")));
        }
      }
    }
    const int n = j.what == kComplete ? k.nu : k.nq;
    j.src = surround(j.in, n, j.rank, kNan);
    const int shape = static_cast<int>(choose(4, "shape"));
    std::vector<double> x(64), q(static_cast<std::size_t>(k.nq)), y(64);
    for (auto& v : y) {
      v = rng.unit();
    }
    each(cells, [&](Idx i) {
      for (std::size_t m = 0; m < x.size(); ++m) {
        x[m] = shape == 0 ? y[m]
               : shape == 1 ? (i[static_cast<std::size_t>(j.dir)] < j.out.lo[static_cast<std::size_t>(j.dir)] + 2 ? y[m] : -y[m])
               : shape == 2 ? std::sin(3 * y[m] + 0.3 * static_cast<double>(i[0] + 2 * i[1] - i[2]))
                            : rng.unit();
      }
      maker.state(q.data(), x, r);
      for (int c = 0; c < n; ++c) {
        j.src(c, i) = q[static_cast<std::size_t>(c)];
      }
    });
    if (chance(0.15, "unphysical")) {
      poison(j, rng);
    }
    if (j.what == kFlux) {
      j.dst = surround(j.out, k.nu, j.rank, kCanary);
    } else if (j.what == kComplete) {
      j.dst = surround(j.out, k.nq, j.rank, kCanary);
    }
  }
  return j;
}

/// Which of the cells of a job's fields its kernel was given.
struct Given {
  const Field* field;
  const char* name;
  bool writable;
  std::vector<bool> cells;
  Given(const Field& f, const Box& b, const char* n, bool w) : field{&f}, name{n}, writable{w}, cells(f.v.size()) {
    each(b, [&](Idx i) {
      for (int c = 0; c < f.comps; ++c) {
        cells[f.offset(c, i)] = true;
      }
    });
  }
};

struct Watched {
  std::vector<Given> given;
  std::string text;
};
thread_local const Watched* tl_watched = nullptr;

void watch(const volatile void* p, std::size_t n, bool write) {
  const auto lo = reinterpret_cast<std::uintptr_t>(p);
  for (const Given& g : tl_watched->given) {
    const auto base = reinterpret_cast<std::uintptr_t>(g.field->v.data());
    const std::uintptr_t size = g.cells.size() * sizeof(double);
    if (lo + n <= base || lo >= base + size) {
      continue;
    }
    bool good = lo >= base && lo + n <= base + size && (!write || g.writable);
    for (std::uintptr_t x = lo; good && x < lo + n; x = (x & ~std::uintptr_t{7}) + 8) {
      good = g.cells[(x - base) / sizeof(double)];
    }
    if (!good) {
      sim::tl_watch = nullptr;
      sim::violate(write ? "wrote-outside" : "read-outside", "%s %s %s, which it was not given",
                   tl_watched->text.c_str(), write ? "writes to" : "reads", g.name);
    }
  }
}

/// Does j with kernel k.
void perform(Job& j, Kernel* k) {
  switch (j.what) {
  case kFlux: k->fluxes(j.policy, j.dst, j.out, j.src, j.in, j.dt, j.dx, j.dir); break;
  case kDt: j.got_dt = k->stable_dt(j.policy, j.src, j.in, j.dx, j.dir); break;
  case kComplete: k->complete(j.policy, j.dst, j.out, j.src); break;
  case kUpdate: update(j.policy, j.rank, j.dst, j.alias ? j.dst : j.prev, j.src, j.out, j.dt, j.dx, j.dir); break;
  }
}

/// The same, looking at every access to memory.
void perform_watched(Job& j, Kernel* k, const Info& info) {
  Watched w;
  w.given.emplace_back(j.src, j.what == kComplete ? j.out : j.in, "a cell of its input", false);
  if (j.what != kDt) {
    w.given.emplace_back(j.dst, j.out, "a cell of its output", true);
  }
  if (j.what == kUpdate && !j.alias) {
    w.given.emplace_back(j.prev, j.out, "a cell of the previous state", false);
  }
  w.text = text(j, info);
  struct Guard {
    explicit Guard(const Watched* w) {
      tl_watched = w;
      sim::tl_watch = &watch;
    }
    ~Guard() { sim::tl_watch = nullptr; }
  } guard(&w);
  perform(j, k);
}

/// Everything about j that does not depend on anything else: by itself, and
/// cell by cell.
std::string reference(const Job& job, const Info& k) {
  Job j = job;
  iso::Bytes out;
  const int nout = j.dst.comps;
  // The largest stable step, which also says how fast things move.
  double speed = 0, min_dt = std::numeric_limits<double>::infinity();
  if (j.what == kFlux || j.what == kDt) {
    auto fresh = k.make();
    Box w = j.what == kFlux ? j.out.grown(j.dir, k.width, k.width - 1) : j.in;
    w = w.grown(j.dir, 0, -(2 * k.width - 1));
    if (!j.poisoned) {
      each(w, [&](Idx i) { min_dt = std::min(min_dt, fresh->dt_at(j.src, i, j.dx, j.dir)); });
    }
    speed = j.dx / min_dt;
    if (!(std::isfinite(speed))) {
      speed = 0;
    }
  }
  if (j.what == kFlux) {
    const double cfl = job.dt; // a fraction until here
    j.dt = std::isfinite(min_dt) && min_dt > 0 ? cfl * min_dt : cfl;
  }
  Vec single, scale(static_cast<std::size_t>(nout), 0.0);
  if (j.what == kFlux && !j.poisoned) {
    Vec f(static_cast<std::size_t>(nout));
    each(j.out, [&](Idx i) {
      auto fresh = k.make();
      fresh->flux_at(f.data(), j.src, i, j.dt, j.dx, j.dir);
      single.insert(single.end(), f.begin(), f.end());
      for (int c = 0; c < nout; ++c) {
        const double a = std::abs(f[static_cast<std::size_t>(c)]);
        if (std::isfinite(a)) {
          scale[static_cast<std::size_t>(c)] = std::max(scale[static_cast<std::size_t>(c)], a);
        }
      }
    });
    each(j.out.grown(j.dir, k.width, k.width - 1), [&](Idx i) {
      for (int c = 0; c < nout; ++c) {
        scale[static_cast<std::size_t>(c)] = std::max(scale[static_cast<std::size_t>(c)], speed * std::abs(j.src(c, i)));
      }
    });
  } else if (j.what == kComplete && !j.poisoned) {
    Vec u(static_cast<std::size_t>(j.src.comps)), q(static_cast<std::size_t>(nout));
    each(j.out, [&](Idx i) {
      auto fresh = k.make();
      for (int c = 0; c < j.src.comps; ++c) {
        u[static_cast<std::size_t>(c)] = j.src(c, i);
      }
      fresh->complete_at(q.data(), u.data());
      single.insert(single.end(), q.begin(), q.end());
      for (int c = 0; c < nout; ++c) {
        scale[static_cast<std::size_t>(c)] =
            std::max(scale[static_cast<std::size_t>(c)], std::abs(q[static_cast<std::size_t>(c)]));
      }
    });
  }
  if (k.momentum >= 0 && nout > k.momentum && j.what != kUpdate) {
    double m = 0;
    for (int d = 0; d < k.nmomentum; ++d) {
      m = std::max(m, scale[static_cast<std::size_t>(k.momentum + d)]);
    }
    for (int d = 0; d < k.nmomentum; ++d) {
      scale[static_cast<std::size_t>(k.momentum + d)] = m;
    }
  }
  if (j.what == kUpdate) {
    each(j.out, [&](Idx i) {
      Idx r = i;
      ++r[static_cast<std::size_t>(j.dir)];
      for (int c = 0; c < nout; ++c) {
        const double x = j.prev(c, i) + j.dt / j.dx * (j.src(c, i) - j.src(c, r));
        single.push_back(x);
        scale[static_cast<std::size_t>(c)] =
            std::max({scale[static_cast<std::size_t>(c)], std::abs(j.prev(c, i)),
                      j.dt / j.dx * (std::abs(j.src(c, i)) + std::abs(j.src(c, r)))});
      }
    });
  }
  out.put(j.dt);
  out.put(min_dt);
  out.put_doubles(single.data(), single.size());
  out.put_doubles(scale.data(), scale.size());
  Vec lane;
  double lane_dt = std::numeric_limits<double>::infinity();
  if (!j.poisoned && j.what == kFlux) {
    Field one(j.out, nout, kCanary);
    auto fresh = k.make();
    each(j.out, [&](Idx i) {
      Box face{i, i};
      for (auto& h : face.hi) {
        ++h;
      }
      fresh->fluxes(j.policy, one, face, j.src, face.grown(j.dir, k.width, k.width - 1), j.dt, j.dx, j.dir);
      for (int c = 0; c < nout; ++c) {
        lane.push_back(one(c, i));
      }
    });
  } else if (!j.poisoned && j.what == kDt) {
    auto fresh = k.make();
    each(j.in.grown(j.dir, 0, -(2 * k.width - 1)), [&](Idx i) {
      Box w{i, i};
      for (auto& h : w.hi) {
        ++h;
      }
      lane_dt = std::min(lane_dt, fresh->stable_dt(j.policy, j.src, w.grown(j.dir, 0, 2 * k.width - 1), j.dx, j.dir));
    });
  }
  out.put(lane_dt);
  out.put_doubles(lane.data(), lane.size());
  // The whole, alone.
  auto fresh = k.make();
  int ok = 1;
  try {
    perform(j, fresh.get());
  } catch (...) {
    ok = 0;
  }
  Vec alone;
  if (nout > 0) {
    each(j.out, [&](Idx i) {
      for (int c = 0; c < nout; ++c) {
        alone.push_back(j.dst(c, i));
      }
    });
  }
  out.put(ok);
  out.put(j.got_dt);
  out.put_doubles(alone.data(), alone.size());
  return out.s;
}

void prepare(Job& j, const Info& k) {
  std::string died;
  iso::Bytes b;
  b.s = iso::isolated([&] { return reference(j, k); }, died);
  if (!died.empty()) {
    // Too much for the scheme, whoever computes it.
    j.skip = true;
    sim::count("jobs that cannot be done at all");
    sim::event("too much (%s): %s", died.c_str(), text(j, k).c_str());
    return;
  }
  j.dt = b.get<double>();
  j.single_dt = b.get<double>();
  j.single = b.get_doubles();
  j.scale = b.get_doubles();
  j.lane_dt = b.get<double>();
  j.lane = b.get_doubles();
  if (b.get<int>() == 0) {
    j.skip = true;
    sim::count("jobs that throw");
  }
  j.alone_dt = b.get<double>();
  j.alone = b.get_doubles();
}

bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

void check(const Job& j, const Job& before, const Info& k, const char* who) {
  const std::string t = text(j, k);
  if (!j.error.empty()) {
    sim::violate("threw", "%s threw '%s' %s, but not alone", t.c_str(), j.error.c_str(), who);
  }
  // Nothing but the result has changed.
  for (std::size_t n = 0; n < j.src.v.size(); ++n) {
    if (!same_bits(j.src.v[n], before.src.v[n])) {
      sim::violate("wrote-input", "%s changed its input", t.c_str());
    }
  }
  for (std::size_t n = 0; n < j.prev.v.size(); ++n) {
    if (!same_bits(j.prev.v[n], before.prev.v[n])) {
      sim::violate("wrote-input", "%s changed the previous state", t.c_str());
    }
  }
  Field outside = j.dst;
  for (int c = 0; c < j.dst.comps; ++c) {
    each(j.out, [&](Idx i) { outside(c, i) = before.dst(c, i); });
  }
  for (std::size_t n = 0; n < outside.v.size(); ++n) {
    if (!same_bits(outside.v[n], before.dst.v[n])) {
      sim::violate("wrote-outside", "%s wrote %g outside of the patch", t.c_str(), outside.v[n]);
    }
  }
  if (j.poisoned) {
    sim::count("unphysical patches computed");
    return;
  }
  const double vectorised = j.policy == kSimd || j.policy == kOpenMpSimd ? k.tolerance : 1e-12;
  const double lanes = k.iterative ? k.tolerance : 1e-12;
  const bool comparable = k.same_scheme || !(j.policy == kSimd || j.policy == kOpenMpSimd);
  if (j.what == kDt) {
    if (!(std::abs(j.got_dt - j.alone_dt) <= (k.iterative ? k.tolerance : 1e-12) * std::abs(j.alone_dt)) &&
        !same_bits(j.got_dt, j.alone_dt)) {
      sim::violate("history", "%s is %.17g %s, but %.17g alone", t.c_str(), j.got_dt, who, j.alone_dt);
    }
    if (!(std::abs(j.got_dt - j.lane_dt) <= lanes * std::abs(j.lane_dt)) && !same_bits(j.got_dt, j.lane_dt)) {
      sim::violate("lanes", "%s is %.17g, but the smallest of its faces with the same policy %.17g", t.c_str(), j.got_dt,
                   j.lane_dt);
    }
    if (comparable && !(std::abs(j.got_dt - j.single_dt) <= vectorised * std::abs(j.single_dt)) && !same_bits(j.got_dt, j.single_dt)) {
      sim::violate("policy", "%s is %.17g, but the smallest of its faces' is %.17g", t.c_str(), j.got_dt, j.single_dt);
    }
    sim::count("checked: stable dt");
    return;
  }
  std::size_t n = 0;
  each(j.out, [&](Idx i) {
    bool defined = true;
    for (int c = 0; c < j.dst.comps; ++c) {
      defined = defined && std::isfinite(j.single[n + static_cast<std::size_t>(c)]);
    }
    for (int c = 0; c < j.dst.comps; ++c, ++n) {
      const double got = j.dst(c, i), alone = j.alone[n], single = j.single[n];
      const double s = j.scale[static_cast<std::size_t>(c)];
      if (!defined) {
        continue;
      }
      if (!(std::abs(got - alone) <= (k.iterative ? k.tolerance : 1e-12) * s)) {
        sim::violate("history", "%s: component %d at (%td, %td, %td) is %.17g %s, but %.17g alone (scale %g)", t.c_str(), c, i[0],
                     i[1], i[2], got, who, alone, s);
      }
      if (!j.lane.empty() && !(std::abs(got - j.lane[n]) <= lanes * s)) {
        sim::violate("lanes", "%s: component %d at (%td, %td, %td) is %.17g, but %.17g in a patch of one face (scale %g)", t.c_str(),
                     c, i[0], i[1], i[2], got, j.lane[n], s);
      }
      if (!comparable && j.what == kFlux) {
        continue;
      }
      const double err = std::abs(got - single);
      const double tol = j.what == kUpdate ? 1e-14 : vectorised;
      if (!(err <= tol * s)) {
        sim::violate("policy", "%s: component %d at (%td, %td, %td) is %.17g, but %.17g computed by itself (scale %g)",
                     t.c_str(), c, i[0], i[1], i[2], got, single, s);
      }
      if (err > 0 && sim::info().tier == "thorough") {
        const int dec = static_cast<int>(std::ceil(std::log10(std::max(err / (tol * s), 1e-9))));
        sim::count("error/tolerance below 1e" + std::to_string(dec));
      }
    }
    sim::count(defined ? std::string("checked: ") + kWhat[j.what] : "undefined by itself");
  });
}

/// One thread's kernels.
struct Tools {
  std::vector<std::unique_ptr<Kernel>> k;
  Tools() = default;
  Tools(const Tools& o) {
    for (const auto& x : o.k) {
      k.push_back(x->clone());
    }
  }
  Tools& operator=(const Tools& o) {
    Tools t(o);
    k = std::move(t.k);
    return *this;
  }
};

void run() {
  auto& all = registry();
  std::sort(all.begin(), all.end(), [](const Info& a, const Info& b) { return a.name < b.name; });
  std::vector<const Info*> kernels;
  const int nk = 1 + static_cast<int>(choose(3, "kernels"));
  for (int i = 0; i < nk; ++i) {
    kernels.push_back(&sim::pick(all, "kernel"));
  }
  if (nk > 1 && chance(0.3, "twice the same")) {
    kernels.back() = kernels.front();
  }
  const int threads = 1 + static_cast<int>(choose(4, "threads"));
  const double gap =
      chance(0.8, "preempt") ? static_cast<double>(sim::choose_gen(50000, "gap", [] {
        return static_cast<uint64_t>(std::exp((static_cast<double>(sim::aux_random() >> 11) * 0x1p-53) * std::log(49999.0)));
      })) + 1 : 0;
  set_threads(threads, gap);
  sim::set_current_team(0, 1);

  Tools proto;
  std::vector<Kernel*> makers;
  std::vector<std::unique_ptr<Kernel>> keep;
  for (const Info* k : kernels) {
    proto.k.push_back(k->make());
    keep.push_back(k->make());
    makers.push_back(keep.back().get());
  }
  const int rounds = 1 + static_cast<int>(choose(4, "rounds"));
  std::string names;
  for (const Info* k : kernels) {
    names += (names.empty() ? "" : " + ") + k->name;
  }
  sim::describe(names + "; " + std::to_string(threads) + " threads, " + std::to_string(rounds) + " rounds");

  auto locals = std::make_unique<fub::OmpLocal<Tools>>(proto);
  long done = 0;
  uint64_t digest = 1469598103934665603ull;
  for (int round = 0; round < rounds; ++round) {
    const int njobs = 1 + static_cast<int>(choose(6, "jobs"));
    std::vector<Job> jobs, before;
    for (int n = 0; n < njobs; ++n) {
      Job j = draw_job(kernels, makers);
      const Info& k = *kernels[static_cast<std::size_t>(j.kernel)];
      if (j.what == kFlux) {
        j.dt = uniform(0.05, 0.9, "cfl");
      }
      prepare(j, k);
      if (!j.skip) {
        jobs.push_back(std::move(j));
      }
    }
    before = jobs;
    const int mode = static_cast<int>(choose(4, "distribution"));
    std::deque<std::size_t> queue;
    for (std::size_t n = 0; n < jobs.size(); ++n) {
      queue.push_back(n);
    }
    // What happens to the threads' kernels before the round.
    const int renew = static_cast<int>(choose(5, "renew"));
    Tools donor;
    if (round > 0) {
      if (renew == 1) {
        // every thread gets a copy of a used one
        donor = locals->Get();
        locals = std::make_unique<fub::OmpLocal<Tools>>(donor);
        sim::count("kernels copied from a used one");
      } else if (renew == 2 || renew == 3) {
        donor = locals->Get();
      }
    }
    fub::OmpLocal<double> min_dt(std::numeric_limits<double>::infinity());
    fub::OmpLocal<int> count(0);
    std::vector<int> by(jobs.size(), -1);
    double smallest = std::numeric_limits<double>::infinity();
    const auto work = [&](std::size_t n, int me) {
      Job& j = jobs[n];
      by[n] = me;
      sim::note("thread %d: %s", me, text(j, *kernels[static_cast<std::size_t>(j.kernel)]).c_str());
      try {
        perform_watched(j, locals->Get().k[static_cast<std::size_t>(j.kernel)].get(),
                        *kernels[static_cast<std::size_t>(j.kernel)]);
      } catch (const std::exception& e) {
        j.error = e.what();
      } catch (...) {
        j.error = "something";
      }
      if (j.what == kDt && !j.poisoned) {
        double& m = *min_dt;
        m = std::min(m, j.got_dt);
      }
      *count += 1;
    };
    team_region(threads, [&] {
      const int me = sim::current_thread_num();
      Tools& mine = locals->Get();
      if (round > 0 && renew == 2) {
        for (std::size_t i = 0; i < mine.k.size(); ++i) {
          mine.k[i]->assign(*donor.k[i]);
        }
      } else if (round > 0 && renew == 3) {
        for (std::size_t i = 0; i < mine.k.size(); ++i) {
          auto other = donor.k[i]->clone();
          mine.k[i]->move_from(*other);
        }
      } else if (round > 0 && renew == 4) {
        for (auto& k : mine.k) {
          k = k->clone();
        }
      }
      if (mode == 0) { // whoever is free
        for (;;) {
          sim::yield("next job");
          if (queue.empty()) {
            break;
          }
          const std::size_t n = queue.front();
          queue.pop_front();
          work(n, me);
        }
      } else if (mode == 1) { // in turns
        for (std::size_t n = static_cast<std::size_t>(me); n < jobs.size(); n += static_cast<std::size_t>(threads)) {
          work(n, me);
        }
      } else { // in blocks
        const std::size_t T = static_cast<std::size_t>(threads), t = static_cast<std::size_t>(me);
        for (std::size_t n = jobs.size() * t / T; n < jobs.size() * (t + 1) / T; ++n) {
          work(n, me);
        }
      }
    });
    for (std::size_t n = 0; n < jobs.size(); ++n) {
      const Job& j = jobs[n];
      const Info& k = *kernels[static_cast<std::size_t>(j.kernel)];
      char who[80];
      std::snprintf(who, sizeof who, "on thread %d of %d in round %d", by[n], threads, round);
      check(j, before[n], k, who);
      if (j.what == kDt && !j.poisoned) {
        smallest = std::min(smallest, j.got_dt);
      }
      digest = sim::hash_bytes(j.dst.v.data(), j.poisoned ? 0 : j.dst.v.size() * sizeof(double), digest);
      ++done;
    }
    if (!same_bits(min_dt.Min(), smallest)) {
      sim::violate("reduction", "the smallest of the threads' time steps is %.17g, not %.17g", min_dt.Min(), smallest);
    }
    if (count.Accumulate() != static_cast<int>(jobs.size())) {
      sim::violate("reduction", "the threads' counts sum up to %d, not %zu", count.Accumulate(), jobs.size());
    }
    sim::event("round %d: %zu jobs, values %016llx", round, jobs.size(), static_cast<unsigned long long>(digest));
  }
  sim::count("jobs", done);
  if (done > 0) {
    sim::mark_nontrivial();
  }
  sim::cover(sim::execution_hash());
}
} // namespace
} // namespace omp

void scenario_init() {}
void scenario_run(const std::string& prop) {
  if (prop != "C14") {
    sim::harness_error("no such property here: %s", prop.c_str());
  }
  omp::run();
}
