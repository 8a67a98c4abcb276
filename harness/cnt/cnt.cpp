// C09: histories of timers and counters on 1-5 simulated ranks with clocks of
// their own, and the collective gathering of their statistics.
#include "sim.hpp"

#include "fub/counter/CounterRegistry.hpp"

#include <mpi.h>

#include <cmath>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>

namespace {
struct Op {
  int kind;
  int name, name2;
  int64_t before, after;
  long long value;
  int n;
  std::vector<Op> body;
};
enum Kind {
  Scope, Add, Get, MoveConstruct, MoveAssign, AssignOver, SelfAssign, InVector, Throwing, Swap,
  OnHeap, Return, Reset, Check, WallJump, Burst, Yield, NKinds
};

constexpr int kNames = 9;
const char* const kName[kNames] = {
    "a", "b", "RunSimulation", "RunSimulation::Step", "cfl::ComputeStableDt(0)",
    "HyperbolicSplitLevelIntegrator::AdvanceLevelNonRecursively", "x1", "1x",
    "zz_very_long_counter_name_that_does_not_fit_into_any_small_string_buffer_of_the_library"};

int64_t draw_duration(const char* tag) {
  switch (sim::choose(6, tag)) {
  case 0: return 1000;
  case 1: return 0;
  case 2: return 1;
  case 3: return static_cast<int64_t>(sim::choose(1000000, tag));
  case 4: return static_cast<int64_t>(sim::choose(1000000000000ll, tag));
  default: return static_cast<int64_t>(sim::choose(4000000000000000ll, tag));
  }
}

Op draw_op(int depth, const std::vector<int>& names) {
  Op op{};
  op.kind = static_cast<int>(sim::choose(NKinds, "op"));
  op.name = sim::pick(names, "name");
  op.name2 = sim::pick(names, "name2");
  op.before = draw_duration("d1");
  op.after = draw_duration("d2");
  op.n = 1 + static_cast<int>(sim::choose(4, "n"));
  op.value = op.kind == Add ? static_cast<long long>(draw_duration("value")) : 0;
  if (op.kind == Add && sim::chance(0.15, "negative")) {
    op.value = -op.value;
  }
  if (op.kind == Burst) {
    op.n = 1 + static_cast<int>(sim::choose(300, "burst"));
  }
  if (depth < 3 && op.kind != Add && op.kind != Get && op.kind < Reset) {
    const int n = static_cast<int>(sim::choose(3, "body"));
    for (int i = 0; i < n; ++i) {
      op.body.push_back(draw_op(depth + 1, names));
    }
  }
  return op;
}

struct Left : std::exception {};

/// What the ranks have recorded according to the reference model.
struct Model {
  std::map<std::string, std::vector<long long>> values;
};

struct Rank {
  int rank = 0;
  fub::CounterRegistry registry;
  std::map<std::string, fub::Counter*> pointers; // must stay valid
  Model model;
  long long ops = 0;

  int64_t now() const { return sim::clock_ns(rank); }
  std::vector<long long>& known(int name) { return model.values[kName[name]]; }
  void ended(int name, int64_t t0) { known(name).push_back(now() - t0); }

  fub::Counter* get(int name) {
    fub::Counter* c = registry.get(kName[name]);
    known(name);
    auto [it, fresh] = pointers.emplace(kName[name], c);
    if (!fresh && it->second != c) {
      sim::violate("counter-identity", "rank %d: the registry returned another counter for %s than before", rank, kName[name]);
    }
    return c;
  }

  void check(const std::string& name) {
    const std::vector<long long>& v = model.values[name];
    const fub::Counter& c = *registry.get(name);
    auto fail = [&](const char* what, double got, double want) {
      sim::violate("counter-statistics", "rank %d counter %s with %zu values: %s is %.17g, expected %.17g", rank,
                   name.c_str(), v.size(), what, got, want);
    };
    if (c.get_name() != name) {
      sim::violate("counter-statistics", "counter %s calls itself %s", name.c_str(), c.get_name().c_str());
    }
    if (c.get_count() != v.size()) {
      fail("count", static_cast<double>(c.get_count()), static_cast<double>(v.size()));
    }
    long long sum = 0, mn = v.empty() ? 0 : v[0], mx = mn;
    for (long long x : v) {
      sum += x;
      mn = std::min(mn, x);
      mx = std::max(mx, x);
    }
    if (c.get_value() != sum) {
      fail("total", static_cast<double>(c.get_value()), static_cast<double>(sum));
    }
    if (c.get_min() != mn) {
      fail("minimum", static_cast<double>(c.get_min()), static_cast<double>(mn));
    }
    if (c.get_max() != mx) {
      fail("maximum", static_cast<double>(c.get_max()), static_cast<double>(mx));
    }
    const double scale = std::max(std::abs(static_cast<double>(mn)), std::abs(static_cast<double>(mx)));
    long double mean = v.empty() ? 0 : static_cast<long double>(sum) / static_cast<long double>(v.size());
    long double var = 0;
    for (long long x : v) {
      var += (x - mean) * (x - mean);
    }
    var = v.empty() ? 0 : var / static_cast<long double>(v.size());
    if (!(std::abs(c.get_mean() - static_cast<double>(mean)) <= 1e-12 * scale)) {
      fail("mean", c.get_mean(), static_cast<double>(mean));
    }
    const double tol = 1e-9 * static_cast<double>(var) + 1e-14 * scale * scale;
    if (!(std::abs(c.get_variance() - static_cast<double>(var)) <= tol)) {
      fail("variance", c.get_variance(), static_cast<double>(var));
    }
    if (!(std::abs(c.get_stddev() - std::sqrt(c.get_variance())) <= 1e-12 * c.get_stddev())) {
      fail("standard deviation", c.get_stddev(), std::sqrt(c.get_variance()));
    }
  }

  fub::Timer make(int name) {
    get(name);
    return registry.get_timer(kName[name]);
  }

  void body(const Op& op) {
    sim::advance_ns(op.before);
    for (const Op& o : op.body) {
      run(o);
    }
    sim::advance_ns(op.after);
  }

  void run(const Op& op) {
    ops += 1;
    const int a = op.name, b = op.name2;
    switch (op.kind) {
    case Scope: {
      const int64_t t0 = now();
      {
        fub::Timer t = make(a);
        if (t.get_name() != kName[a]) {
          sim::violate("timer-name", "a timer of %s is called %s", kName[a], t.get_name().c_str());
        }
        body(op);
      }
      ended(a, t0);
      break;
    }
    case Add:
      get(a)->add(op.value);
      known(a).push_back(op.value);
      break;
    case Get: get(a); break;
    case MoveConstruct: {
      const int64_t t0 = now();
      {
        auto first = std::make_unique<fub::Timer>(make(a));
        sim::advance_ns(op.before);
        std::optional<fub::Timer> last(std::move(*first));
        if (op.n % 2) {
          first.reset();
          sim::advance_ns(op.after);
        }
        for (int i = 0; i < op.n; ++i) {
          fub::Timer x(std::move(*last));
          body(op);
          last.emplace(std::move(x));
        }
      }
      ended(a, t0);
      break;
    }
    case MoveAssign: {
      const int64_t t0 = now();
      {
        fub::Timer t;
        t = make(a);
        body(op);
        fub::Timer u;
        u = std::move(t);
        sim::advance_ns(op.after);
        if (op.n % 2) {
          // The moved-from timer may be used again.
          const int64_t t1 = now();
          t = make(b);
          sim::advance_ns(op.before);
          {
            fub::Timer gone(std::move(t));
          }
          ended(b, t1);
        }
      }
      ended(a, t0);
      break;
    }
    case AssignOver: {
      int64_t t0 = now();
      {
        fub::Timer t = make(a);
        body(op);
        for (int i = 0; i < op.n; ++i) {
          const int x = i % 2 ? a : b, y = i % 2 ? b : a;
          t = make(x);
          ended(y, t0);
          t0 = now();
          sim::advance_ns(op.after);
        }
      }
      ended(op.n % 2 ? b : a, t0);
      break;
    }
    case SelfAssign: {
      const int64_t t0 = now();
      {
        fub::Timer t = make(a);
        body(op);
        fub::Timer& same = t;
        t = std::move(same);
        sim::advance_ns(op.after);
      }
      ended(a, t0);
      break;
    }
    case InVector: {
      std::vector<int64_t> t0;
      {
        std::vector<fub::Timer> v;
        for (int i = 0; i < op.n + 1; ++i) {
          t0.push_back(now());
          v.push_back(make(i % 2 ? a : b));
          sim::advance_ns(op.before);
        }
        body(op);
      }
      for (std::size_t i = 0; i < t0.size(); ++i) {
        ended(i % 2 ? a : b, t0[i]);
      }
      break;
    }
    case Throwing: {
      const int64_t t0 = now();
      sim::count("fault:exception");
      try {
        fub::Timer t = make(a);
        body(op);
        const int64_t t1 = now();
        try {
          fub::Timer u = make(b);
          sim::advance_ns(op.after);
          throw Left{};
        } catch (Left&) {
          ended(b, t1);
          sim::advance_ns(op.before);
          if (op.n % 2) {
            throw;
          }
        }
        throw Left{};
      } catch (Left&) {
      }
      ended(a, t0);
      break;
    }
    case Swap: {
      const int64_t t0 = now();
      int64_t t1;
      {
        std::optional<fub::Timer> t(make(a));
        sim::advance_ns(op.before);
        t1 = now();
        fub::Timer u = make(b);
        body(op);
        std::swap(*t, u);
        sim::advance_ns(op.after);
        t.reset(); // measures b now
        ended(b, t1);
        sim::advance_ns(op.before);
      }
      ended(a, t0);
      break;
    }
    case OnHeap: {
      const int64_t t0 = now();
      auto t = std::make_shared<fub::Timer>(*get(a));
      auto fn = [t] {};
      t.reset();
      body(op);
      {
        auto moved = std::move(fn);
        sim::advance_ns(op.after);
      }
      ended(a, t0);
      break;
    }
    case Return: {
      const int64_t t0 = now();
      {
        auto start = [&](bool which) {
          fub::Timer x = make(a);
          fub::Timer none;
          sim::advance_ns(op.before);
          return which ? std::move(x) : std::move(none);
        };
        fub::Timer t = start(true);
        body(op);
      }
      ended(a, t0);
      break;
    }
    case Reset:
      get(a)->reset();
      known(a).clear();
      break;
    case Check:
      if (model.values.count(kName[a])) {
        check(kName[a]);
      }
      break;
    case WallJump:
      sim::count("fault:wall-clock-jump");
      sim::jump_wall_clock(rank, (op.n % 2 ? -1 : 1) * (op.before + op.after));
      break;
    case Burst:
      for (int i = 0; i < op.n; ++i) {
        const int64_t t0 = now();
        {
          fub::Timer t = make(a);
          sim::advance_ns(op.before % 100000 + i);
        }
        ended(a, t0);
      }
      break;
    case Yield:
      sim::yield("between timers");
      break;
    }
  }
};

struct Stats {
  long long min = 0, max = 0;
  double mean = 0, stddev = 0, variance = 0;
};

Stats expected(const std::vector<Rank*>& ranks, const std::string& name, bool empty_counts_zero) {
  Stats s;
  std::vector<double> means;
  bool first = true;
  for (const Rank* r : ranks) {
    auto it = r->model.values.find(name);
    std::vector<long long> v = it == r->model.values.end() ? std::vector<long long>{} : it->second;
    double m = 0;
    if (v.empty()) {
      if (!empty_counts_zero) {
        continue;
      }
      v.push_back(0);
    } else {
      long long sum = 0;
      for (long long x : v) {
        sum += x;
      }
      m = static_cast<double>(sum) / static_cast<double>(v.size());
    }
    for (long long x : v) {
      s.min = first ? x : std::min(s.min, x);
      s.max = first ? x : std::max(s.max, x);
      first = false;
    }
    means.push_back(m);
  }
  for (double m : means) {
    s.mean += m;
  }
  if (!means.empty()) {
    s.mean /= static_cast<double>(means.size());
    for (double m : means) {
      s.variance += (m - s.mean) * (m - s.mean);
    }
    s.variance /= static_cast<double>(means.size());
  }
  s.stddev = std::sqrt(s.variance);
  return s;
}

bool same(const fub::CounterResult& r, const Stats& s) {
  const double scale = std::max({std::abs(static_cast<double>(s.min)), std::abs(static_cast<double>(s.max))});
  return r.min == s.min && r.max == s.max && std::abs(r.mean - s.mean) <= 1e-12 * scale &&
         std::abs(r.variance - s.variance) <= 1e-9 * s.variance + 1e-13 * scale * scale &&
         std::abs(r.stddev - std::sqrt(r.variance)) <= 1e-9 * r.stddev;
}

void check_result(const std::vector<Rank*>& ranks, int root, const fub::CounterResult& r) {
  const Rank& me = *ranks[static_cast<std::size_t>(root)];
  auto it = me.model.values.find(r.name);
  const std::size_t n = it == me.model.values.end() ? 0 : it->second.size();
  if (r.count != n) {
    sim::violate("gathered-count", "counter %s: gathered count %lu on root %d, which recorded %zu values", r.name.c_str(), r.count, root, n);
  }
  const Stats a = expected(ranks, r.name, true), b = expected(ranks, r.name, false);
  if (!same(r, a) && !same(r, b)) {
    sim::violate("gathered-statistics",
                 "counter %s over %zu ranks: min %lld max %lld mean %.17g stddev %.17g variance %.17g, expected min %lld max %lld "
                 "mean %.17g stddev %.17g variance %.17g",
                 r.name.c_str(), ranks.size(), r.min, r.max, r.mean, r.stddev, r.variance, a.min, a.max, a.mean, a.stddev, a.variance);
  }
}

template <typename D>
void check_table(const std::vector<fub::CounterResult>& results, long long reference) {
  const std::string text = fub::print_statistics<D>(results, reference);
  std::istringstream lines(text);
  std::string line;
  std::map<std::string, int> seen;
  double last = std::numeric_limits<double>::infinity();
  while (std::getline(lines, line)) {
    std::istringstream words(line);
    std::vector<std::string> w;
    for (std::string x; words >> x;) {
      w.push_back(x);
    }
    const fub::CounterResult* r = nullptr;
    for (const fub::CounterResult& x : results) {
      if (!w.empty() && x.name == w[0]) {
        r = &x;
      }
    }
    if (!r) {
      continue;
    }
    seen[r->name] += 1;
    using namespace std::chrono;
    auto cast = [](double ns) {
      return std::to_string(duration_cast<D>(nanoseconds(std::llround(ns))).count());
    };
    const double total = static_cast<double>(r->count) * r->mean;
    const bool ok = w.size() == 7 && w[1] == std::to_string(r->count) &&
                    w[2] == std::to_string(duration_cast<D>(nanoseconds(r->min)).count()) &&
                    w[3] == std::to_string(duration_cast<D>(nanoseconds(r->max)).count()) &&
                    w[4] == cast(r->mean) && w[5] == cast(r->stddev);
    bool last_ok = w.size() == 7;
    if (last_ok) {
      const double want = reference == -1
                              ? static_cast<double>(duration_cast<D>(nanoseconds(std::llround(total))).count())
                              : 100.0 * total / static_cast<double>(reference);
      const double got = std::strtod(w[6].c_str(), nullptr);
      last_ok = std::abs(got - want) <= 0.06 * std::abs(want);
    }
    if (!ok || !last_ok) {
      sim::violate("printed-statistics", "table row '%s' for count %lu min %lld max %lld mean %.17g stddev %.17g, reference %lld",
                   line.c_str(), r->count, r->min, r->max, r->mean, r->stddev, reference);
    }
    if (total > last * (1 + 1e-12) + 1e-9) {
      sim::violate("printed-order", "the table is not sorted by total: %s", text.c_str());
    }
    last = total;
  }
  for (const fub::CounterResult& r : results) {
    if (seen[r.name] != 1) {
      sim::violate("printed-statistics", "counter %s appears %d times in the table", r.name.c_str(), seen[r.name]);
    }
  }
}
} // namespace

void scenario_init() {}

void scenario_run(const std::string&) {
  sim::enable_clock(true);
  const int nranks = 1 + static_cast<int>(sim::choose(5, "ranks"));
  const int rounds = 1 + static_cast<int>(sim::choose(4, "rounds"));
  struct Round {
    std::vector<std::vector<Op>> ops; // per rank
    int gather, root, name, unit;
    long long reference;
  };
  // Ranks may know different counters, created in different orders.
  const bool uniform = sim::chance(0.3, "same-names");
  std::vector<std::vector<int>> names(static_cast<std::size_t>(nranks));
  for (int r = 0; r < nranks; ++r) {
    auto& v = names[static_cast<std::size_t>(r)];
    if (uniform && r > 0) {
      v = names[0];
      continue;
    }
    for (int i = 0; i < kNames; ++i) {
      if (sim::chance(0.5, "has")) {
        v.push_back(i);
      }
    }
    if (v.empty()) {
      v.push_back(0);
    }
  }
  std::vector<Round> plan(static_cast<std::size_t>(rounds));
  for (Round& round : plan) {
    round.ops.resize(static_cast<std::size_t>(nranks));
    for (int r = 0; r < nranks; ++r) {
      const int n = static_cast<int>(sim::choose(7, "nops"));
      for (int i = 0; i < n; ++i) {
        round.ops[static_cast<std::size_t>(r)].push_back(draw_op(0, names[static_cast<std::size_t>(r)]));
      }
    }
    round.gather = static_cast<int>(sim::choose(3, "gather"));
    round.root = static_cast<int>(sim::choose(static_cast<uint64_t>(nranks), "root"));
    round.name = sim::pick(names[0], "gname");
    round.unit = static_cast<int>(sim::choose(4, "unit"));
    round.reference = sim::chance(0.5, "ref") ? -1 : 1 + static_cast<long long>(sim::choose(1000000000000ll, "refns"));
  }
  sim::mpi_init(nranks);
  for (int r = 0; r < nranks; ++r) {
    sim::set_clock(r, r == 0 ? 0 : static_cast<int64_t>(sim::choose(1000000000000ll, "offset")),
                   1.0 + (r == 0 ? 0.0 : sim::uniform(0, 2e-2, "rate") - (sim::chance(0.5, "slow") ? 1e-2 : 0)));
  }
  std::vector<std::unique_ptr<Rank>> ranks;
  std::vector<Rank*> all;
  for (int r = 0; r < nranks; ++r) {
    ranks.push_back(std::make_unique<Rank>());
    ranks.back()->rank = r;
    all.push_back(ranks.back().get());
  }
  sim::describe(std::to_string(nranks) + " ranks, " + std::to_string(rounds) + " rounds");
  std::vector<int> tasks;
  for (int r = 0; r < nranks; ++r) {
    tasks.push_back(sim::spawn("rank" + std::to_string(r), r, [&, r] {
      Rank& me = *all[static_cast<std::size_t>(r)];
      for (const Round& round : plan) {
        for (const Op& op : round.ops[static_cast<std::size_t>(r)]) {
          me.run(op);
        }
        for (auto& [name, v] : me.model.values) {
          me.check(name);
        }
        // The reference reads the other ranks' models: nobody records before all
        // have gathered.
        MPI_Barrier(MPI_COMM_WORLD);
        std::map<std::string, int> names_now;
        for (const Rank* x : all) {
          for (auto& [name, v] : x->model.values) {
            names_now[name] = 0;
          }
        }
        const int root = round.gather == 2 ? round.root : 0;
        std::vector<fub::CounterResult> results;
        std::size_t size = 0;
        if (round.gather == 0) {
          results = me.registry.gather_statistics();
          size = results.size();
        } else if (round.gather == 1) {
          for (auto& [name, x] : me.registry.gather_statistics_map()) {
            if (name != x.name) {
              sim::violate("gathered-names", "result of %s is filed under %s", x.name.c_str(), name.c_str());
            }
            results.push_back(x);
          }
        } else {
          fub::Counter* c = me.get(round.name);
          MPI_Barrier(MPI_COMM_WORLD);
          names_now = {{kName[round.name], 0}};
          if (auto x = c->gather_statistics(MPI_COMM_WORLD, root)) {
            results.push_back(*x);
          }
        }
        if (r != root) {
          if (!results.empty()) {
            sim::violate("gathered-on-non-root", "rank %d received results that belong to root %d", r, root);
          }
        } else {
          for (const fub::CounterResult& x : results) {
            auto it = names_now.find(x.name);
            if (it == names_now.end() || it->second++) {
              sim::violate("gathered-names", "unexpected or repeated result for counter %s", x.name.c_str());
            }
            check_result(all, root, x);
          }
          for (auto& [name, n] : names_now) {
            if (n != 1) {
              sim::violate("gathered-names", "counter %s was not gathered", name.c_str());
            }
          }
          switch (round.unit) {
          case 0: check_table<std::chrono::nanoseconds>(results, round.reference); break;
          case 1: check_table<std::chrono::microseconds>(results, round.reference); break;
          case 2: check_table<std::chrono::milliseconds>(results, round.reference); break;
          default: check_table<std::chrono::seconds>(results, round.reference); break;
          }
          sim::count("counters gathered", static_cast<long long>(results.size()));
        }
        MPI_Barrier(MPI_COMM_WORLD);
        for (auto& [name, v] : me.model.values) {
          me.check(name);
        }
      }
    }));
  }
  sim::join(tasks);
  long long ops = 0;
  for (const Rank* x : all) {
    ops += x->ops;
    for (const auto& [name, v] : x->model.values) {
      sim::cover(sim::hash_bytes(name.data(), name.size()));
      for (long long y : v) {
        sim::cover(sim::hash_of(y));
      }
    }
  }
  sim::count("timer and counter operations", ops);
  sim::cover(sim::execution_hash());
  if (ops > 0) {
    sim::mark_nontrivial();
  }
}
