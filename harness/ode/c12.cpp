// C12: fub::RadauSolver under simulated threads.
#include "ode/common.hpp"

#include "fub/ode_solver/OdeSolverFactory.hpp"
#include "fub/ode_solver/RadauSolver.hpp"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <typeinfo>
#include <unistd.h>

// ---------------------------------------------------------------- allocations
namespace {
thread_local long tl_fail_alloc = -1; // counts down; 0: this one fails
thread_local bool tl_alloc_window = false;
} // namespace

void* operator new(std::size_t n) {
  if (tl_alloc_window && !sim::tl_preempting && tl_fail_alloc >= 0 && tl_fail_alloc-- == 0) {
    throw std::bad_alloc();
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace ode {
void fail_allocation(long which) {
  tl_fail_alloc = which;
  tl_alloc_window = which >= 0;
}

namespace {
using sim::chance;
using sim::choose;
using sim::range;
using sim::uniform;
using fub::span;

constexpr long kMaxEvaluations = 30000000;

struct Injected {
  int id;
};
struct InjectedStd : std::runtime_error {
  int id;
  InjectedStd(int i) : std::runtime_error("injected " + std::to_string(i)), id(i) {}
};

struct Settings {
  double rtol = 1e-12, atol = 1e-13, h0 = 1e-6, thr = 0.01;
};

enum Kind {
  kRelax, kForced, kRotation, kLogistic, kQuadrature, kDense, kSquareDecay, kRobertson,
  kGood = kRobertson,
  kBlowUp, kNanAfterTime, kNanAboveValue, kNanAtOnce, kNanBesideStart, kJump, kKinds
};
const char* const kKindName[] = {"relaxation", "forced relaxation", "rotation", "logistic", "quadrature",
                                 "dense linear", "square decay", "Robertson", "blow-up", "nan after a time",
                                 "nan above a value", "nan at once", "nan beside the initial value", "jump"};

enum Fault { fNone, fThrowRhs, fThrowRhsStd, fNanOnce, fThrowObserver, fThrowJacobian, fAlloc };
const char* const kFaultName[] = {"none", "throw in rhs", "throw std in rhs", "nan once", "throw in observer",
                                  "throw in jacobian", "allocation failure"};

struct Spec {
  Settings s;
  Kind kind = kRelax;
  int n = 1;
  std::vector<double> y0, a, b;
  double t0 = 0, dt = 1, special = 0;
  bool observer = false, jacobian = false;
  Fault fault = fNone;
  long fault_at = 0;
  std::string text() const {
    char buf[400];
    std::snprintf(buf, sizeof buf,
                  "%s n=%d t0=%.6g dt=%.6g rtol=%.3g atol=%.3g h0=%.3g thr=%.3g%s%s fault=%s@%ld", kKindName[kind],
                  n, t0, dt, s.rtol, s.atol, s.h0, s.thr, observer ? " observed" : "",
                  jacobian ? " with jacobian" : "", kFaultName[fault], fault_at);
    return buf;
  }
};

double log_uniform(double lo, double hi, const char* tag) {
  return std::exp(uniform(std::log(lo), std::log(hi), tag));
}

// ---------------------------------------------------------------- problems
void rhs_of(const Spec& p, double* f, const double* y, double t) {
  const int n = p.n;
  switch (p.kind) {
  case kRelax:
  case kNanBesideStart:
    for (int i = 0; i < n; ++i) {
      f[i] = -p.a[i] * (y[i] - p.b[i]);
      if (p.kind == kNanBesideStart && y[i] > p.y0[i]) {
        f[i] = std::numeric_limits<double>::quiet_NaN();
      }
    }
    break;
  case kForced:
    for (int i = 0; i < n; ++i) {
      f[i] = -p.a[i] * (y[i] - std::sin(p.b[i] * t)) + p.b[i] * std::cos(p.b[i] * t);
    }
    break;
  case kRotation:
    for (int i = 0; i + 1 < n; i += 2) {
      f[i] = p.a[i] * y[i + 1] - p.b[i] * y[i];
      f[i + 1] = -p.a[i] * y[i] - p.b[i] * y[i + 1];
    }
    if (n % 2) {
      f[n - 1] = -p.b[n - 1] * y[n - 1];
    }
    break;
  case kLogistic:
    for (int i = 0; i < n; ++i) {
      f[i] = p.a[i] * y[i] * (1 - y[i]);
    }
    break;
  case kQuadrature:
    for (int i = 0; i < n; ++i) {
      f[i] = p.a[i] * std::cos(p.b[i] * t);
    }
    break;
  case kDense: { // V diag(-a) V^T y with V = 1 - 2 b b^T
    double by = 0;
    for (int i = 0; i < n; ++i) {
      by += p.b[i] * y[i];
    }
    double bz = 0;
    for (int i = 0; i < n; ++i) {
      f[i] = -p.a[i] * (y[i] - 2 * p.b[i] * by);
      bz += p.b[i] * f[i];
    }
    for (int i = 0; i < n; ++i) {
      f[i] -= 2 * p.b[i] * bz;
    }
    break;
  }
  case kSquareDecay:
    for (int i = 0; i < n; ++i) {
      f[i] = -y[i] * y[i];
    }
    break;
  case kRobertson:
    f[0] = -0.04 * y[0] + 1e4 * y[1] * y[2];
    f[2] = 3e7 * y[1] * y[1];
    f[1] = -f[0] - f[2];
    break;
  case kBlowUp:
    for (int i = 0; i < n; ++i) {
      f[i] = y[i] * y[i];
    }
    break;
  case kNanAfterTime:
    for (int i = 0; i < n; ++i) {
      f[i] = std::sqrt(p.special - t);
    }
    break;
  case kNanAboveValue:
    for (int i = 0; i < n; ++i) {
      f[i] = y[0] > p.special ? std::numeric_limits<double>::quiet_NaN() : 1.0;
    }
    break;
  case kNanAtOnce:
    for (int i = 0; i < n; ++i) {
      f[i] = i == n - 1 ? std::numeric_limits<double>::quiet_NaN() : 1.0;
    }
    break;
  case kJump:
    for (int i = 0; i < n; ++i) {
      f[i] = t < p.special ? p.a[i] : p.b[i];
    }
    break;
  default:
    break;
  }
}

bool has_jacobian(Kind k) {
  return k == kRelax || k == kForced || k == kRotation || k == kLogistic || k == kSquareDecay || k == kRobertson;
}

void jacobian_of(const Spec& p, double* j, int ld, const double* y, double) {
  const int n = p.n;
  std::fill(j, j + ld * n, 0.0);
  auto at = [&](int r, int c) -> double& { return j[r + c * ld]; };
  for (int i = 0; i < n; ++i) {
    switch (p.kind) {
    case kRelax:
    case kForced:
      at(i, i) = -p.a[i];
      break;
    case kLogistic:
      at(i, i) = p.a[i] * (1 - 2 * y[i]);
      break;
    case kSquareDecay:
      at(i, i) = -2 * y[i];
      break;
    case kRotation:
      if (i + 1 < n && i % 2 == 0) {
        at(i, i) = at(i + 1, i + 1) = -p.b[i];
        at(i, i + 1) = p.a[i];
        at(i + 1, i) = -p.a[i];
      } else if (i % 2 == 0) {
        at(i, i) = -p.b[i];
      }
      break;
    default:
      break;
    }
  }
  if (p.kind == kRobertson) {
    at(0, 0) = -0.04;
    at(0, 1) = 1e4 * y[2];
    at(0, 2) = 1e4 * y[1];
    at(2, 1) = 6e7 * y[1];
    for (int c = 0; c < 3; ++c) {
      at(1, c) = -at(0, c) - at(2, c);
    }
  }
}

/// The exact solution at t; empty if there is no closed form.
std::vector<double> exact(const Spec& p, double t) {
  using L = long double;
  const L tau = static_cast<L>(t) - static_cast<L>(p.t0);
  std::vector<double> r(p.y0);
  const int n = p.n;
  switch (p.kind) {
  case kRelax:
  case kNanBesideStart:
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(p.b[i] + (L(p.y0[i]) - p.b[i]) * std::exp(-p.a[i] * tau));
    }
    break;
  case kForced:
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(std::sin(p.b[i] * (L)t) +
                                 (L(p.y0[i]) - std::sin(p.b[i] * (L)p.t0)) * std::exp(-p.a[i] * tau));
    }
    break;
  case kRotation:
    for (int i = 0; i + 1 < n; i += 2) {
      const L c = std::cos(p.a[i] * tau), s = std::sin(p.a[i] * tau), e = std::exp(-p.b[i] * tau);
      r[i] = static_cast<double>(e * (c * p.y0[i] + s * p.y0[i + 1]));
      r[i + 1] = static_cast<double>(e * (-s * p.y0[i] + c * p.y0[i + 1]));
    }
    if (n % 2) {
      r[n - 1] = static_cast<double>(p.y0[n - 1] * std::exp(-p.b[n - 1] * tau));
    }
    break;
  case kLogistic:
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(p.y0[i] / (p.y0[i] + (1 - L(p.y0[i])) * std::exp(-p.a[i] * tau)));
    }
    break;
  case kQuadrature:
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(p.y0[i] + p.a[i] / (L)p.b[i] * (std::sin(p.b[i] * (L)t) - std::sin(p.b[i] * (L)p.t0)));
    }
    break;
  case kDense: {
    L by = 0;
    for (int i = 0; i < n; ++i) {
      by += (L)p.b[i] * p.y0[i];
    }
    std::vector<L> z(n);
    L bz = 0;
    for (int i = 0; i < n; ++i) {
      z[i] = std::exp(-p.a[i] * tau) * (p.y0[i] - 2 * (L)p.b[i] * by);
      bz += p.b[i] * z[i];
    }
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(z[i] - 2 * (L)p.b[i] * bz);
    }
    break;
  }
  case kSquareDecay:
    for (int i = 0; i < n; ++i) {
      r[i] = static_cast<double>(p.y0[i] / (1 + p.y0[i] * tau));
    }
    break;
  case kJump:
    for (int i = 0; i < n; ++i) {
      r[i] = p.y0[i] + p.a[i] * std::min(t - p.t0, p.special - p.t0) + p.b[i] * std::max(0.0, t - p.special);
    }
    break;
  default:
    return {};
  }
  return r;
}

Settings draw_settings() {
  Settings s;
  if (chance(0.6, "settings")) {
    s.rtol = log_uniform(1e-12, 1e-4, "rtol");
    s.atol = s.rtol * log_uniform(1e-3, 1, "atol");
    s.h0 = chance(0.5, "h0?") ? log_uniform(1e-10, 1e-1, "h0") : 1e-6;
    s.thr = chance(0.3, "thr?") ? log_uniform(1e-3, 0.5, "thr") : 0.01;
    if (chance(0.04, "bad-tolerance")) {
      s.rtol = chance(0.5, "which") ? 0.0 : 1e-17;
    }
  }
  return s;
}

Spec draw_spec() {
  Spec p;
  const bool bad = chance(0.25, "hard");
  p.kind = static_cast<Kind>(bad ? kGood + 1 + choose(kKinds - kGood - 1, "kind") : choose(kGood + 1, "kind"));
  p.n = static_cast<int>(1 + choose(chance(0.2, "large") ? 12 : 4, "n"));
  if (p.kind == kRobertson) {
    p.n = 3;
  }
  p.t0 = chance(0.3, "t0?") ? uniform(-5, 5, "t0") : 0.0;
  p.dt = log_uniform(1e-3, 8, "dt");
  for (int i = 0; i < p.n; ++i) {
    p.y0.push_back(uniform(0.1, 2, "y0"));
    switch (p.kind) {
    case kRelax:
    case kForced:
    case kDense:
      p.a.push_back(log_uniform(1e-1, 1e7, "lambda"));
      p.b.push_back(uniform(-2, 2, "b"));
      break;
    case kNanBesideStart:
      p.a.push_back(log_uniform(1e-1, 1e3, "lambda"));
      p.b.push_back(0);
      break;
    case kRotation:
      p.a.push_back(log_uniform(0.1, 20, "w"));
      p.b.push_back(uniform(0, 2, "d"));
      break;
    case kLogistic:
      p.a.push_back(log_uniform(0.1, 10, "r"));
      p.b.push_back(0);
      break;
    default:
      p.a.push_back(uniform(-2, 2, "a"));
      p.b.push_back(uniform(0.5, 5, "b"));
    }
  }
  if (p.kind == kDense) {
    double norm = 0;
    for (double b : p.b) {
      norm += b * b;
    }
    norm = std::sqrt(norm);
    for (double& b : p.b) {
      b = norm > 1e-6 ? b / norm : (&b == &p.b[0] ? 1.0 : 0.0);
    }
  }
  if (p.kind == kRobertson) {
    p.y0 = {1, 0, 0};
    p.dt *= 5;
  }
  const double where = uniform(0.05, 0.95, "special");
  if (p.kind == kBlowUp) {
    const double ymax = *std::max_element(p.y0.begin(), p.y0.end());
    p.dt = 1 / ymax / where;
  } else if (p.kind == kNanAfterTime || p.kind == kJump) {
    p.special = p.t0 + where * p.dt;
  } else if (p.kind == kNanAboveValue) {
    p.special = p.y0[0] + where * p.dt;
  }
  const bool reversible = p.kind == kQuadrature || p.kind == kRotation;
  if (reversible && chance(0.25, "backwards")) {
    if (p.kind == kRotation) {
      std::fill(p.b.begin(), p.b.end(), 0.01);
    }
    p.dt = -p.dt;
  }
  p.observer = chance(0.4, "observer");
  p.jacobian = has_jacobian(p.kind) && chance(0.3, "jacobian");
  if (chance(0.25, "fault")) {
    p.fault = static_cast<Fault>(1 + choose(6, "which-fault"));
    p.fault_at = static_cast<long>(sim::choose_gen(20000, "fault-at", [] {
      const double u = static_cast<double>(sim::aux_random() >> 11) * 0x1p-53;
      return static_cast<uint64_t>(std::exp(u * std::log(20000.0))) - 1;
    }));
    if (p.fault == fThrowObserver) {
      p.observer = true;
      p.fault_at %= 60;
    } else if (p.fault == fThrowJacobian) {
      p.jacobian = has_jacobian(p.kind);
      p.fault_at %= 30;
      if (!p.jacobian) {
        p.fault = fNone;
      }
    } else if (p.fault == fAlloc) {
      p.fault_at %= 3;
    } else if (p.fault_at > 3000 && chance(0.5, "early")) {
      p.fault_at %= 3000;
    }
  }
  return p;
}

// ---------------------------------------------------------------- one integration
struct Outcome {
  std::string error; // empty: returned
  std::vector<double> y;
  uint64_t calls_hash = 0;
  long rhs = 0, seen = 0, jac = 0;
  bool injected = false;   // the fault was reached
  std::string observer_trouble;
  bool guard_broken = false;
  std::string pack() const {
    Bytes b;
    b.put_string(error);
    b.put_doubles(y.data(), y.size());
    b.put(calls_hash);
    b.put(rhs);
    b.put(seen);
    b.put(jac);
    b.put(injected);
    b.put_string(observer_trouble);
    b.put(guard_broken);
    return b.s;
  }
  static Outcome unpack(const std::string& s) {
    Bytes b;
    b.s = s;
    Outcome o;
    o.error = b.get_string();
    o.y = b.get_doubles();
    o.calls_hash = b.get<uint64_t>();
    o.rhs = b.get<long>();
    o.seen = b.get<long>();
    o.jac = b.get<long>();
    o.injected = b.get<bool>();
    o.observer_trouble = b.get_string();
    o.guard_broken = b.get<bool>();
    return o;
  }
};

void tick() {
  if (sim::tl_preempt_after > 0 && --sim::tl_preempt_after == 0) {
    sim::preempt_now();
  }
}

Outcome integrate(const fub::OdeSolver& solver, const Spec& p, int id) {
  Outcome o;
  constexpr int kGuard = 8;
  const double canary = -7.25e77;
  std::vector<double> mem(static_cast<std::size_t>(p.n + 2 * kGuard), canary);
  std::copy(p.y0.begin(), p.y0.end(), mem.begin() + kGuard);
  span<double> y(mem.data() + kGuard, p.n);
  uint64_t h = 1;
  double last_t = p.t0;
  std::vector<double> last_y;
  const double dir = p.dt < 0 ? -1 : 1;
  bool window = false;
  // Callbacks run on the integrating thread; allocations they make themselves are not the solver's.
  auto leave = [&] {
    window = tl_alloc_window;
    tl_alloc_window = false;
  };
  auto enter = [&] { tl_alloc_window = window; };
  auto rhs = [&](span<double> f, span<const double> x, double t) {
    leave();
    tick();
    h = sim::hash_of(t, sim::hash_bytes(x.data(), static_cast<std::size_t>(x.size()) * sizeof(double), h * 3));
    rhs_of(p, f.data(), x.data(), t);
    const long k = o.rhs++;
    if (k > kMaxEvaluations) {
      if (in_isolation) {
        o.error = "runaway";
        const std::string s = o.pack();
        (void)s;
        ::_exit(77);
      }
      sim::violate("runaway", "more than %ld evaluations: %s", kMaxEvaluations, p.text().c_str());
    }
    if (k == p.fault_at) {
      if (p.fault == fThrowRhs) {
        o.injected = true;
        throw Injected{id};
      }
      if (p.fault == fThrowRhsStd) {
        o.injected = true;
        throw InjectedStd{id};
      }
      if (p.fault == fNanOnce) {
        o.injected = true;
        f[p.n - 1] = std::numeric_limits<double>::quiet_NaN();
      }
    }
    tick();
    enter();
  };
  auto jac = [&](span<double> j, span<const double> x, double t) {
    leave();
    tick();
    h = sim::hash_of(t, sim::hash_bytes(x.data(), static_cast<std::size_t>(x.size()) * sizeof(double), h * 5));
    jacobian_of(p, j.data(), static_cast<int>(j.size()) / p.n, x.data(), t);
    if (o.jac++ == p.fault_at && p.fault == fThrowJacobian) {
      o.injected = true;
      throw Injected{id};
    }
    enter();
  };
  auto see = [&](span<const double> x, double t) {
    leave();
    tick();
    h = sim::hash_of(t, sim::hash_bytes(x.data(), static_cast<std::size_t>(x.size()) * sizeof(double), h * 7));
    char buf[200];
    if (o.seen > 0 && !((t - last_t) * dir > 0) && o.observer_trouble.empty()) {
      std::snprintf(buf, sizeof buf, "after time %.17g it was shown time %.17g", last_t, t);
      o.observer_trouble = buf;
    }
    if (o.seen == 0 && !((t - p.t0) * dir >= 0)) {
      std::snprintf(buf, sizeof buf, "it was first shown time %.17g, before the start at %.17g", t, p.t0);
      o.observer_trouble = buf;
    }
    last_t = t;
    last_y.assign(x.begin(), x.end());
    if (o.seen++ == p.fault_at && p.fault == fThrowObserver) {
      o.injected = true;
      throw Injected{id};
    }
    enter();
  };
  if (p.fault == fAlloc) {
    tl_fail_alloc = p.fault_at;
  }
  tl_alloc_window = true;
  struct Close {
    ~Close() { tl_alloc_window = false; }
  };
  try {
    Close c;
    if (p.observer && p.jacobian) {
      solver.Integrate(rhs, y, p.t0, p.dt, see, jac);
    } else if (p.observer) {
      solver.Integrate(rhs, y, p.t0, p.dt, fub::OdeSolver::feedback_type(see));
    } else if (p.jacobian) {
      solver.Integrate(rhs, y, p.t0, p.dt, fub::OdeSolver::jacobian_type(jac));
    } else {
      solver.Integrate(rhs, y, p.t0, p.dt);
    }
  } catch (Injected& e) {
    o.error = "Injected " + std::to_string(e.id == id);
  } catch (InjectedStd& e) {
    o.error = "InjectedStd " + std::to_string(e.id == id);
  } catch (std::bad_alloc&) {
    o.error = "bad_alloc";
    o.injected = true;
  } catch (std::exception& e) {
    o.error = std::string(typeid(e).name()) + ": " + e.what();
  } catch (...) {
    o.error = "unknown exception";
  }
  tl_fail_alloc = -1;
  o.calls_hash = h;
  for (int i = 0; i < kGuard; ++i) {
    o.guard_broken |= mem[static_cast<std::size_t>(i)] != canary;
    o.guard_broken |= mem[mem.size() - 1 - static_cast<std::size_t>(i)] != canary;
  }
  o.y.assign(y.begin(), y.end());
  if (o.error.empty() && p.observer && o.observer_trouble.empty()) {
    const double end = p.t0 + p.dt;
    char buf[200];
    if (o.seen == 0) {
      o.observer_trouble = "it was never called";
    } else if (!(std::abs(last_t - end) <= 1e-13 * std::max(std::abs(end), std::abs(p.t0)))) {
      std::snprintf(buf, sizeof buf, "the last time it was shown is %.17g, the end time %.17g", last_t, end);
      o.observer_trouble = buf;
    } else if (last_y != o.y) {
      o.observer_trouble = "what it was shown at the end is not the result";
    }
  }
  return o;
}

bool same_bits(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
}

/// What an integration of p has to come to, whatever happened before.
void judge(const Spec& p, const Outcome& o, const char* where) {
  const std::string text = p.text();
  if (o.guard_broken) {
    sim::violate("overrun", "%s: the integrator wrote outside of the state: %s", where, text.c_str());
  }
  if (!o.observer_trouble.empty()) {
    sim::violate("observer", "%s: observer of %s: %s", where, text.c_str(), o.observer_trouble.c_str());
  }
  const bool threw = o.injected && (p.fault == fThrowRhs || p.fault == fThrowRhsStd || p.fault == fThrowObserver ||
                                    p.fault == fThrowJacobian);
  if (threw) {
    const char* want = p.fault == fThrowRhsStd ? "InjectedStd 1" : "Injected 1";
    if (o.error != want) {
      sim::violate("callback-exception", "%s: the exception thrown by a callback did not reach the caller, who got '%s': %s",
                   where, o.error.c_str(), text.c_str());
    }
    return;
  }
  if (o.error == "bad_alloc") {
    if (p.fault != fAlloc) {
      sim::violate("result", "%s: bad_alloc without cause: %s", where, text.c_str());
    }
    return;
  }
  if (o.error.compare(0, 8, "Injected") == 0 || o.error == "unknown exception") {
    sim::violate("callback-exception", "%s: an exception came from nowhere (%s): %s", where, o.error.c_str(), text.c_str());
  }
  const bool bad_settings = !(p.s.rtol > 1e-15);
  // Robertson's problem runs away once its second component, about 4e-5, becomes negative.
  const bool too_coarse = p.kind == kRobertson && p.s.atol > 1e-8;
  const bool good = p.kind <= kGood && !bad_settings && !too_coarse && !(p.fault == fNanOnce && o.injected);
  if (!o.error.empty()) {
    if (good) {
      sim::violate("failed", "%s: a well-posed integration failed with '%s': %s", where, o.error.c_str(), text.c_str());
    }
    return;
  }
  const bool hopeless = p.kind == kBlowUp || p.kind == kNanAfterTime || p.kind == kNanAboveValue || p.kind == kNanAtOnce;
  if (hopeless || bad_settings) {
    sim::violate("silent-failure", "%s: the integration cannot have a result but none of its errors was reported: %s", where,
                 text.c_str());
  }
  const std::vector<double> x = exact(p, p.t0 + p.dt);
  double scale = 0;
  for (int i = 0; i < p.n; ++i) {
    scale = std::max({scale, std::abs(p.y0[static_cast<std::size_t>(i)]), std::abs(o.y[static_cast<std::size_t>(i)])});
  }
  double growth = 1;
  if (p.kind == kLogistic) {
    for (double r : p.a) {
      growth = std::max(growth, r * p.dt);
    }
  }
  if (!x.empty()) {
    const double factor = p.kind == kJump ? 1e5 : 1e3;
    for (int i = 0; i < p.n; ++i) {
      const auto j = static_cast<std::size_t>(i);
      const double err = std::abs(o.y[j] - x[j]);
      double tol = factor * growth * (p.s.atol + p.s.rtol * std::max(scale, std::abs(x[j]))) + 1e-11 * scale;
      if (p.kind == kJump) {
        tol = std::max(tol, 100 * std::pow(p.s.rtol, 8.0 / 14) * std::max(scale, std::abs(x[j])));
      }
      if (p.kind == kForced) {
        // Stiff forcing: the method's error estimate is blind to the order reduction; what it
        // controls is its internal tolerance 0.1 rtol^(8/14).
        tol = std::max(tol, std::pow(p.s.rtol, 8.0 / 14) * std::max(scale, std::abs(x[j])));
      }
      if (!(err <= tol)) {
        sim::violate("accuracy", "%s: component %d is %.17g instead of %.17g (error %.3g, tolerated %.3g): %s", where, i,
                     o.y[j], x[j], err, tol, text.c_str());
      }
      if (p.kind != kJump && err > 0) {
        const double ratio = err / (p.s.atol + p.s.rtol * scale);
        const int dec = static_cast<int>(std::floor(std::log10(std::max(ratio, 1e-3))));
        sim::count("error/tolerance 1e" + std::to_string(dec));
      }
    }
  } else if (p.kind == kRobertson) {
    const double sum = o.y[0] + o.y[1] + o.y[2];
    if (!(std::abs(sum - 1) <= 1e3 * p.s.rtol + 1e-10) || o.y[1] < -1e-6 - 100 * p.s.atol) {
      sim::violate("accuracy", "%s: masses sum to %.17g, the second one is %.17g: %s", where, sum, o.y[1], text.c_str());
    }
  }
  if (good && o.rhs > 3000000) {
    sim::violate("runaway", "%s: %ld evaluations for a well-posed integration: %s", where, o.rhs, text.c_str());
  }
}

struct Op {
  int what = 0; // 0 integrate 1 new 2 settings 3 clone 4 copy 5 move 6 factory
  int slot = 0, other = 0;
  int spec = -1;
  Settings s;
};

} // namespace

void run_c12() {
  const int nslots = static_cast<int>(1 + choose(5, "solvers"));
  const int nphases = static_cast<int>(1 + choose(3, "phases"));
  std::vector<Spec> specs;
  std::vector<Settings> model(static_cast<std::size_t>(nslots));
  // program[phase][task] = ops; a slot belongs to one task within a phase
  std::vector<std::vector<std::vector<Op>>> program;
  int total_integrations = 0;
  for (int ph = 0; ph < nphases; ++ph) {
    const int ntasks = static_cast<int>(1 + choose(4, "threads"));
    std::vector<std::vector<int>> slots(static_cast<std::size_t>(ntasks));
    for (int s = 0; s < nslots; ++s) {
      slots[choose(static_cast<uint64_t>(ntasks), "owner")].push_back(s);
    }
    program.emplace_back(static_cast<std::size_t>(ntasks));
    for (int t = 0; t < ntasks; ++t) {
      auto& mine = slots[static_cast<std::size_t>(t)];
      if (mine.empty()) {
        continue;
      }
      const int nops = static_cast<int>(1 + choose(5, "ops"));
      for (int k = 0; k < nops; ++k) {
        Op op;
        op.slot = sim::pick(mine, "slot");
        op.other = sim::pick(mine, "other");
        if (chance(0.3, "other-op")) {
          op.what = static_cast<int>(1 + choose(6, "op"));
        }
        Settings& m = model[static_cast<std::size_t>(op.slot)];
        switch (op.what) {
        case 1:
        case 6:
          m = Settings{};
          break;
        case 2:
          m = op.s = draw_settings();
          break;
        case 3:
        case 4:
          m = model[static_cast<std::size_t>(op.other)];
          break;
        case 5:
          if (op.slot != op.other) {
            m = model[static_cast<std::size_t>(op.other)];
          }
          break;
        default:
          break;
        }
        if (op.what == 0) {
          // Now and then the very same problem again, on other solvers and threads.
          if (!specs.empty() && chance(0.3, "again")) {
            op.spec = static_cast<int>(choose(specs.size(), "which"));
            Spec p = specs[static_cast<std::size_t>(op.spec)];
            p.s = m;
            specs.push_back(p);
          } else {
            Spec p = draw_spec();
            p.s = m;
            specs.push_back(p);
          }
          op.spec = static_cast<int>(specs.size()) - 1;
          total_integrations += 1;
        }
        program.back()[static_cast<std::size_t>(t)].push_back(op);
      }
    }
  }
  if (specs.empty()) {
    sim::finish();
  }
  sim::mark_nontrivial();
  char desc[200];
  std::snprintf(desc, sizeof desc, "%d solvers, %d phases, %d integrations; first: ", nslots, nphases, total_integrations);
  sim::describe(desc + specs[0].text());

  // The same integrations on their own, each in a process in which nothing else happened.
  std::vector<Outcome> twin;
  for (std::size_t i = 0; i < specs.size(); ++i) {
    const Spec& p = specs[i];
    sim::event("integration %zu: %s", i, p.text().c_str());
    if (p.fault != fNone) {
      sim::count(std::string("fault:") + kFaultName[p.fault]);
    }
    sim::count(std::string("problem: ") + kKindName[p.kind]);
    std::string died;
    const std::string s = isolated(
        [&] {
          fub::RadauSolver solver;
          solver.relative_tolerance = p.s.rtol;
          solver.absolute_tolerance = p.s.atol;
          solver.initial_time_step_size = p.s.h0;
          solver.jacobian_threshhold = p.s.thr;
          return integrate(solver, p, static_cast<int>(i)).pack();
        },
        died);
    if (died == "exit status 77") {
      sim::violate("runaway", "more than %ld evaluations: %s", kMaxEvaluations, p.text().c_str());
    }
    if (!died.empty()) {
      sim::violate("crash", "the process %s during %s", died.c_str(), p.text().c_str());
    }
    twin.push_back(Outcome::unpack(s));
    const Outcome& o = twin.back();
    sim::event("  alone: %s, %ld evaluations, %ld observed, y %016llx", o.error.empty() ? "returned" : o.error.c_str(), o.rhs,
               o.seen, (unsigned long long)sim::hash_bytes(o.y.data(), o.y.size() * sizeof(double)));
    sim::count("evaluations", o.rhs);
    if (o.injected) {
      sim::count("faults reached");
    }
    sim::count(o.error.empty() ? "integrations with a result" : "integrations with an error");
    judge(p, o, "alone");
  }

  const double gap = std::exp(uniform(std::log(20.0), std::log(50000.0), "mean-gap"));
  std::vector<std::unique_ptr<fub::OdeSolver>> solver(static_cast<std::size_t>(nslots));
  for (auto& s : solver) {
    s = std::make_unique<fub::RadauSolver>();
  }
  auto radau = [&](int slot) -> fub::RadauSolver& {
    auto* r = dynamic_cast<fub::RadauSolver*>(solver[static_cast<std::size_t>(slot)].get());
    if (!r) {
      sim::violate("clone", "solver %d is no RadauSolver any more", slot);
    }
    return *r;
  };
  for (std::size_t ph = 0; ph < program.size(); ++ph) {
    std::vector<int> tasks;
    for (std::size_t t = 0; t < program[ph].size(); ++t) {
      tasks.push_back(sim::spawn("thread " + std::to_string(t), 0, [&, t] {
        for (const Op& op : program[ph][t]) {
          sim::yield("operation");
          auto& mine = solver[static_cast<std::size_t>(op.slot)];
          switch (op.what) {
          case 1:
            mine = std::make_unique<fub::RadauSolver>();
            break;
          case 2: {
            auto& r = radau(op.slot);
            r.relative_tolerance = op.s.rtol;
            r.absolute_tolerance = op.s.atol;
            r.initial_time_step_size = op.s.h0;
            r.jacobian_threshhold = op.s.thr;
            break;
          }
          case 3:
            mine = solver[static_cast<std::size_t>(op.other)]->Clone();
            if (!mine) {
              sim::violate("clone", "Clone returned nothing");
            }
            break;
          case 4: {
            fub::RadauSolver copy(radau(op.other));
            if (op.slot != op.other) {
              radau(op.slot) = copy;
            } else {
              mine = std::make_unique<fub::RadauSolver>(copy);
            }
            break;
          }
          case 5:
            if (op.slot != op.other) {
              fub::RadauSolver moved(radau(op.other)); // keep the source usable
              radau(op.slot) = std::move(moved);
            }
            break;
          case 6:
            mine = fub::OdeSolverFactory::GetInstance().MakeSolver("RADAU");
            break;
          default: {
            const Spec& p = specs[static_cast<std::size_t>(op.spec)];
            const Outcome& want = twin[static_cast<std::size_t>(op.spec)];
            sim::event("thread %zu: integration %d on solver %d", t, op.spec, op.slot);
            sim::enable_access_preemption(gap, 120);
            const Outcome got = integrate(*mine, p, op.spec);
            sim::disable_access_preemption();
            sim::event("thread %zu: integration %d: %s, %ld evaluations", t, op.spec,
                       got.error.empty() ? "returned" : got.error.c_str(), got.rhs);
            judge(p, got, "among others");
            // Which allocations are left to fail depends on what the solver has allocated already.
            if (p.fault == fAlloc && (got.error == "bad_alloc" || want.error == "bad_alloc")) {
              sim::count("allocation failures met");
              continue;
            }
            const char* what = got.error != want.error                               ? "the outcome"
                               : got.error.empty() && !same_bits(got.y, want.y)      ? "the result"
                               : got.rhs != want.rhs || got.calls_hash != want.calls_hash ? "the sequence of evaluations"
                                                                                     : nullptr;
            if (what) {
              sim::violate("not-isolated",
                           "%s of integration %d is not what it is alone: '%s' %.17g, %ld evaluations instead of '%s' %.17g, "
                           "%ld evaluations: %s",
                           what, op.spec, got.error.c_str(), got.y[0], got.rhs, want.error.c_str(), want.y[0], want.rhs,
                           p.text().c_str());
            }
            sim::cover(sim::hash_of(got.calls_hash, sim::hash_of(got.rhs)));
          }
          }
        }
      }));
    }
    sim::join(tasks);
  }
  sim::cover(sim::execution_hash());
}

} // namespace ode
