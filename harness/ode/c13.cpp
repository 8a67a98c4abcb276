// C13: fub::FlameMasterReactor. Reactors are made, copied, moved, assigned,
// handed over between simulated threads and advanced there; every object's own
// sequence of operations is repeated on a single reactor in a process of its
// own, which judges the results and must come to the same bits.
#include "ode/common.hpp"

#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/ode_solver/RadauSolver.hpp"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <memory>
#include <new>
#include <optional>

namespace ode {
namespace {
using fub::Array1d;
using fub::ArrayXd;
using fub::FlameMasterReactor;
using fub::MaskArray;
using fub::span;
using sim::chance;
using sim::choose;
using sim::range;
using sim::uniform;
using Reactor = FlameMasterReactor;
using Vec = std::vector<double>;

constexpr int kLanes = fub::kDefaultChunkSize;

double log_uniform(double lo, double hi, const char* tag) {
  return std::exp(uniform(std::log(lo), std::log(hi), tag));
}

enum Kind {
  kTemperature, kDensity, kPressure, kMassFractions, kMassString, kBadString, kMoleFractions, kMoleString,
  kEnergy, kEnthalpy, kAdvance, kFindMax, kIsentropic, kSolver, kReset, kRead,
  kArrayState, kArrayMasked, kArrayEnergy, kArrayEnergyMasked,
  kKinds,
  // operations between objects, never part of an object's own sequence
  kCopyConstruct, kMoveConstruct, kCopyAssign, kMoveAssign, kSwap, kNew, kCopyAssignNoMemory, kSelfAssign
};
const char* const kName[] = {"SetTemperature", "SetDensity", "SetPressure", "SetMassFractions",
                             "SetMassFractions(string)", "a malformed string", "SetMoleFractions",
                             "SetMoleFractions(string)", "SetInternalEnergy", "SetEnthalpy", "Advance",
                             "AdvanceAndFindMaxdT", "SetPressureIsentropic", "SetOdeSolver", "set everything",
                             "read", "array state", "masked array state", "SetInternalEnergyArray",
                             "masked SetInternalEnergyArray", "", "copy construct", "move construct",
                             "copy assign", "move assign", "swap", "new", "copy assign without memory",
                             "self assign"};

enum Observer { kNone, kWatch, kQuery, kRates, kThrow };

struct Op {
  Kind kind = kRead;
  double x = 0, y = 0;
  Vec v;
  std::string s;
  int observer = 0, at = 0;
  unsigned mask = 0;
  int slot = 0, other = 0;
};

std::string text(const Op& op) {
  char buf[200];
  std::snprintf(buf, sizeof buf, "%s(%.9g, %.9g)%s%s", kName[op.kind], op.x, op.y, op.s.empty() ? "" : " ",
                op.s.c_str());
  return buf;
}

struct Stop {
  int id;
};

// ---------------------------------------------------------------- snapshots
struct Snap {
  Vec scalar, array;
};

Snap snapshot(const Reactor& r) {
  Snap s;
  const int n = r.GetNSpecies();
  s.scalar = {r.GetTemperature(), r.GetDensity(), r.GetPressure(), r.GetMeanMolarMass(), r.GetEnthalpy(),
              r.GetInternalEnergy(), r.GetCp(), r.GetCv()};
  for (int i = 0; i < n; ++i) {
    s.scalar.push_back(r.GetMassFractions()[i]);
  }
  for (int i = 0; i < n; ++i) {
    s.scalar.push_back(r.GetCps()[i]);
  }
  auto put = [&](const Array1d& a) {
    for (int i = 0; i < kLanes; ++i) {
      s.array.push_back(a[i]);
    }
  };
  put(r.GetTemperatureArray());
  put(r.GetDensityArray());
  put(r.GetPressureArray());
  put(r.GetMeanMolarMassArray());
  put(r.GetEnthalpyArray());
  put(r.GetInternalEnergyArray());
  put(r.GetCpArray());
  put(r.GetCvArray());
  for (int i = 0; i < n; ++i) {
    put(r.GetMassFractionsArray().row(i));
  }
  return s;
}

const char* const kField[] = {"temperature", "density", "pressure", "mean molar mass", "enthalpy", "internal energy",
                              "cp", "cv"};

bool same(const Vec& a, const Vec& b) {
  return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
}

std::string difference(const Snap& got, const Snap& want) {
  char buf[200];
  for (int part = 0; part < 2; ++part) {
    const Vec& a = part ? got.array : got.scalar;
    const Vec& b = part ? want.array : want.scalar;
    if (a.size() != b.size()) {
      return "another number of values";
    }
    const int w = part ? kLanes : 1;
    for (std::size_t i = 0; i < a.size(); ++i) {
      if (std::memcmp(&a[i], &b[i], sizeof(double)) != 0) {
        const int f = static_cast<int>(i) / w;
        const int n = part ? static_cast<int>(a.size()) / w - 8 : (static_cast<int>(a.size()) - 8) / 2;
        char name[60];
        if (f < 8) {
          std::snprintf(name, sizeof name, "%s", kField[f]);
        } else {
          std::snprintf(name, sizeof name, "%s %d", f < 8 + n ? "mass fraction" : "heat capacity", (f - 8) % n);
        }
        std::snprintf(buf, sizeof buf, "%s%s is %.17g instead of %.17g", part ? "array " : "", name, a[i], b[i]);
        return buf;
      }
    }
  }
  return "";
}

// ---------------------------------------------------------------- one operation
struct Outcome {
  std::string error;
  double value = 0;      // what the operation returned
  Vec values;            // what reading returned
  long seen = 0;         // calls of the observer
  uint64_t seen_hash = 0;
  std::string observer_trouble;
  Snap after;
  void pack(Bytes& b) const {
    b.put_string(error);
    b.put(value);
    b.put_doubles(values.data(), values.size());
    b.put(seen);
    b.put(seen_hash);
    b.put_string(observer_trouble);
    b.put_doubles(after.scalar.data(), after.scalar.size());
    b.put_doubles(after.array.data(), after.array.size());
  }
  static Outcome unpack(Bytes& b) {
    Outcome o;
    o.error = b.get_string();
    o.value = b.get<double>();
    o.values = b.get_doubles();
    o.seen = b.get<long>();
    o.seen_hash = b.get<uint64_t>();
    o.observer_trouble = b.get_string();
    o.after.scalar = b.get_doubles();
    o.after.array = b.get_doubles();
    return o;
  }
};

struct Watched {
  Vec t, T;
};

ArrayXd fractions(const Op& op, int n) {
  ArrayXd y(n, kLanes);
  for (int i = 0; i < n; ++i) {
    for (int l = 0; l < kLanes; ++l) {
      y(i, l) = op.v[static_cast<std::size_t>(3 * kLanes + i * kLanes + l)];
    }
  }
  return y;
}
Array1d lane_values(const Op& op, int which) {
  Array1d a;
  for (int l = 0; l < kLanes; ++l) {
    a[l] = op.v[static_cast<std::size_t>(which * kLanes + l)];
  }
  return a;
}
MaskArray mask_of(const Op& op) {
  MaskArray m;
  for (int l = 0; l < kLanes; ++l) {
    m[l] = (op.mask >> l) & 1u;
  }
  return m;
}

Outcome apply(Reactor& r, const Op& op, Watched* watched = nullptr) {
  Outcome o;
  const int n = r.GetNSpecies();
  bool finished = false;
  try {
    switch (op.kind) {
    case kTemperature: r.SetTemperature(op.x); break;
    case kDensity: r.SetDensity(op.x); break;
    case kPressure: r.SetPressure(op.x); break;
    case kMassFractions: r.SetMassFractions(op.v); break;
    case kMassString: r.SetMassFractions(op.s); break;
    case kBadString:
      try {
        op.at % 2 ? r.SetMoleFractions(op.s) : r.SetMassFractions(op.s);
      } catch (fub::FlameMasterReactorException&) {
        o.value = 1;
      }
      r.SetMassFractions(op.v);
      break;
    case kMoleFractions: r.SetMoleFractions(op.v); break;
    case kMoleString: r.SetMoleFractions(op.s); break;
    case kEnergy: op.y == 0 ? r.SetInternalEnergy(op.x) : r.SetInternalEnergy(op.x, op.y); break;
    case kEnthalpy: r.SetEnthalpy(op.x, op.y == 0 ? 1e-6 : op.y); break;
    case kAdvance:
    case kFindMax: {
      double last = -1;
      double last_T = 0;
      Vec last_y;
      auto watch = [&](span<const double> y, double t, Reactor* who) {
        o.seen += 1;
        o.seen_hash = sim::hash_bytes(&t, sizeof t, o.seen_hash);
        o.seen_hash = sim::hash_bytes(y.data(), static_cast<std::size_t>(y.size()) * sizeof(double), o.seen_hash);
        if (!(t > last)) {
          o.observer_trouble = "its times do not increase";
        }
        if (who != &r || y.size() != n + 1) {
          o.observer_trouble = "it was given another reactor or a state of another size";
        }
        last = t;
        last_T = y[0];
        last_y.assign(y.begin(), y.end());
        if (watched) {
          watched->t.push_back(t);
          watched->T.push_back(y[0]);
        }
        if (op.observer == kThrow && o.seen == op.at) {
          throw Stop{op.at};
        }
        if (op.observer == kQuery) {
          const double s = who->GetTemperature() + who->GetDensity() + who->GetEnthalpy() + who->GetCp() +
                           who->GetPressure() + who->GetInternalEnergy();
          o.seen_hash = sim::hash_of(o.seen_hash, static_cast<uint64_t>(s != s));
        }
        if (op.observer == kRates) {
          (void)who->GetProductionRates();
          (void)who->GetReactionRates();
        }
        finished = false;
      };
      if (op.kind == kFindMax) {
        o.value = r.AdvanceAndFindMaxdT(op.x);
      } else if (op.observer == kNone) {
        r.Advance(op.x);
      } else {
        r.Advance(op.x, watch);
        if (op.x != 0 && o.observer_trouble.empty()) {
          if (!(std::abs(last - op.x) <= 1e-13 * op.x)) {
            o.observer_trouble = "the last time it was shown is not the end";
          } else if (last_T != r.GetTemperature()) {
            o.observer_trouble = "the temperature it was shown at the end is not the result";
          } else {
            for (int i = 0; i < n; ++i) {
              const double y = last_y[static_cast<std::size_t>(i) + 1] * r.GetMolarMasses()[i] / r.GetDensity();
              if (!(std::abs(y - r.GetMassFractions()[i]) <= 1e-13 * std::abs(y))) {
                o.observer_trouble = "the composition it was shown at the end is not the result";
              }
            }
          }
        }
      }
      break;
    }
    case kIsentropic: o.value = r.SetPressureIsentropic(op.x); break;
    case kSolver: {
      auto s = std::make_unique<fub::RadauSolver>();
      s->relative_tolerance = op.x;
      s->absolute_tolerance = op.y;
      r.SetOdeSolver(std::move(s));
      if (op.at) {
        r.SetOdeSolver(nullptr); // changes nothing
      }
      break;
    }
    case kReset:
      r.SetMassFractions(op.v);
      r.SetTemperature(op.x);
      r.SetDensity(op.y);
      break;
    case kRead: {
      switch (op.at) {
      case 0:
        for (double x : r.GetProductionRates()) o.values.push_back(x);
        for (double x : r.GetReactionRates()) o.values.push_back(x);
        break;
      case 1: for (double x : r.GetMoleFractions()) o.values.push_back(x); break;
      case 2: for (double x : r.GetEnthalpies()) o.values.push_back(x); break;
      default: o.values.push_back(r.GetEntropy()); break;
      }
      break;
    }
    case kArrayState:
      r.SetMassFractionsArray(fractions(op, n));
      r.SetTemperatureArray(lane_values(op, 0));
      op.at ? r.SetPressureArray(lane_values(op, 1)) : r.SetDensityArray(lane_values(op, 1));
      break;
    case kArrayMasked:
      r.SetMassFractionsArray(fractions(op, n), mask_of(op));
      r.SetTemperatureArray(lane_values(op, 0));
      op.at ? r.SetPressureArray(lane_values(op, 1)) : r.SetDensityArray(lane_values(op, 1));
      break;
    case kArrayEnergy:
      r.SetMassFractionsArray(fractions(op, n));
      r.SetDensityArray(lane_values(op, 1));
      r.SetTemperatureArray(lane_values(op, 0));
      r.SetInternalEnergyArray(lane_values(op, 2));
      break;
    case kArrayEnergyMasked:
      r.SetMassFractionsArray(fractions(op, n), mask_of(op));
      r.SetDensityArray(lane_values(op, 1));
      r.SetTemperatureArray(lane_values(op, 0));
      r.SetInternalEnergyArray(lane_values(op, 2), mask_of(op));
      break;
    default: break;
    }
  } catch (const Stop& s) {
    o.error = "Stop " + std::to_string(s.id);
  } catch (const fub::FlameMasterReactorException& e) {
    o.error = "FlameMasterReactorException";
  } catch (const std::exception& e) {
    o.error = e.what();
  } catch (...) {
    o.error = "unknown exception";
  }
  if (op.kind == kAdvance && op.observer == kThrow && o.error.compare(0, 5, "Stop ") == 0) {
    // What state an interrupted advance leaves is nobody's promise. Set everything.
    r.SetMassFractions(op.v);
    r.SetTemperature(op.y);
    r.SetDensity(1.0);
  }
  o.after = snapshot(r);
  return o;
}

// ---------------------------------------------------------------- judging, alone
struct Verdict {
  std::string cls, msg;
};

struct Thermo {
  Vec h, cp, M;
  double R;
  const fub::FlameMasterMechanism& mech;
  explicit Thermo(const fub::FlameMasterMechanism& m) : mech(m) {
    const std::size_t n = static_cast<std::size_t>(m.getNSpecies());
    h.resize(n);
    cp.resize(n);
    M.resize(n);
    m.getMolarMass(M);
    R = m.getUniversalGasConstant();
  }
  void at(double T) {
    Vec s(h.size());
    mech.ComputeThermoData(h, cp, T, s);
  }
  double inv_mass(const Vec& Y) const {
    double s = 0;
    for (std::size_t i = 0; i < Y.size(); ++i) s += Y[i] / M[i];
    return s;
  }
  double enthalpy(const Vec& Y, double T) {
    at(T);
    double s = 0;
    for (std::size_t i = 0; i < Y.size(); ++i) s += Y[i] * h[i];
    return s;
  }
  double cp_of(const Vec& Y, double T) {
    at(T);
    double s = 0;
    for (std::size_t i = 0; i < Y.size(); ++i) s += Y[i] * cp[i];
    return s;
  }
  double energy(const Vec& Y, double T) { return enthalpy(Y, T) - R * inv_mass(Y) * T; }
  /// Something to measure enthalpy differences by.
  double scale(const Vec& Y, double T) {
    at(T);
    double s = 0;
    for (std::size_t i = 0; i < Y.size(); ++i) s += std::abs(Y[i] * h[i]) + std::abs(Y[i] * cp[i]) * T;
    return s;
  }
};

// The polynomials of the mechanism are fits to this range; far outside even
// the heat capacities turn negative.
bool in_range(double T) { return T > 200 && T < 6000; }

bool near(double a, double b, double rel, double abs = 0) {
  return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs;
}

Vec mass_fractions(const Reactor& r) { return Vec(r.GetMassFractions().begin(), r.GetMassFractions().end()); }

// atoms per molecule: N, Ar, H, O, He
const int kAtoms[11][5] = {{2, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 2, 0},
                           {0, 0, 0, 1, 0}, {0, 0, 1, 1, 0}, {0, 0, 2, 0, 0}, {0, 0, 2, 1, 0},
                           {0, 0, 0, 0, 1}, {0, 0, 1, 2, 0}, {0, 0, 2, 2, 0}};

struct Settings {
  double rtol = 1e-12, atol = 1e-13;
};

class Judge {
public:
  explicit Judge(const fub::FlameMasterMechanism& m) : mech_(m), th_(m) {}
  std::optional<Verdict> verdict;
  Vec worst = Vec(8, 0.0);

  Outcome step(Reactor& r, const Op& op) {
    const Snap before = snapshot(r);
    const Reactor old(r);
    Watched w;
    const Outcome o = apply(r, op, &w);
    check(r, old, before, op, o, w);
    return o;
  }

private:
  const fub::FlameMasterMechanism& mech_;
  Thermo th_;
  Settings settings_;

  void bad(const char* cls, const char* fmt, ...) {
    if (verdict) {
      return;
    }
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    verdict = Verdict{cls, buf};
  }

  void expect_unchanged(const Reactor& r, const Reactor& old, const Op& op, bool T, bool rho, bool Y) {
    if (T && r.GetTemperature() != old.GetTemperature()) {
      bad("side-effect", "%s changed the temperature from %.17g to %.17g", text(op).c_str(), old.GetTemperature(),
          r.GetTemperature());
    }
    if (rho && r.GetDensity() != old.GetDensity()) {
      bad("side-effect", "%s changed the density from %.17g to %.17g", text(op).c_str(), old.GetDensity(), r.GetDensity());
    }
    if (Y && mass_fractions(r) != mass_fractions(old)) {
      bad("side-effect", "%s changed the composition", text(op).c_str());
    }
  }

  /// What holds in every state.
  void consistent(const Reactor& r, const Op& op) {
    const Vec Y = mass_fractions(r);
    const double T = r.GetTemperature();
    const double p = r.GetDensity() * th_.R * th_.inv_mass(Y) * T;
    if (!near(r.GetPressure(), p, 1e-11)) {
      bad("inconsistent", "after %s the pressure is %.17g, density, temperature and composition give %.17g",
          text(op).c_str(), r.GetPressure(), p);
    }
    const double h = th_.enthalpy(Y, T), tol = 1e-11 * th_.scale(Y, T);
    if (!(std::abs(r.GetEnthalpy() - h) <= tol)) {
      bad("inconsistent", "after %s the enthalpy is %.17g, that of %.17g K is %.17g", text(op).c_str(), r.GetEnthalpy(), T, h);
    }
    if (!(std::abs(r.GetInternalEnergy() - th_.energy(Y, T)) <= tol)) {
      bad("inconsistent", "after %s the internal energy is %.17g, that of %.17g K is %.17g", text(op).c_str(),
          r.GetInternalEnergy(), T, th_.energy(Y, T));
    }
    if (!near(r.GetCp(), th_.cp_of(Y, T), 1e-11, in_range(T) ? 0 : tol / T)) {
      bad("inconsistent", "after %s cp is %.17g, that of %.17g K is %.17g", text(op).c_str(), r.GetCp(), T, th_.cp_of(Y, T));
    }
    if (!near(r.GetCp() - r.GetCv(), th_.R * th_.inv_mass(Y), 1e-9)) {
      bad("inconsistent", "after %s cp - cv is %.17g", text(op).c_str(), r.GetCp() - r.GetCv());
    }
    Reactor copy(r);
    Vec c(copy.GetMoleFractions().begin(), copy.GetMoleFractions().end());
    for (std::size_t i = 0; i < Y.size(); ++i) {
      if (!near(c[i], Y[i] * r.GetDensity() / th_.M[i], 1e-12, 1e-300)) {
        bad("inconsistent", "after %s the moles of species %zu are %.17g", text(op).c_str(), i, c[i]);
      }
    }
    // Production rates belong to the state, not to what was computed before.
    Vec w(static_cast<std::size_t>(mech_.getNReactions())), k(w.size()),
        m(static_cast<std::size_t>(mech_.getNThirdBodyReactions())), cdot(Y.size());
    for (std::size_t i = 0; i < Y.size(); ++i) c[i] = Y[i] * r.GetDensity() / th_.M[i];
    double magnitude = 0;
    mech_.ComputeProductionRates(cdot, w, k, c, m, T, p);
    for (double x : w) magnitude = std::max(magnitude, std::abs(x));
    Reactor other(r);
    span<const double> got = other.GetProductionRates();
    for (std::size_t i = 0; i < Y.size(); ++i) {
      if (!(std::abs(got[static_cast<std::ptrdiff_t>(i)] - cdot[i]) <= 1e-8 * magnitude + 1e-300)) {
        bad("inconsistent", "after %s the production rate of species %zu is %.17g instead of %.17g", text(op).c_str(), i,
            got[static_cast<std::ptrdiff_t>(i)], cdot[i]);
      }
    }
  }

  void expect_fractions(const Reactor& r, const Op& op, Vec want, bool moles) {
    double sum = 0;
    for (double& x : want) {
      x = std::max(0.0, x);
    }
    Vec got = mass_fractions(r);
    double gsum = 0, ysum = 0;
    for (double y : got) ysum += y;
    for (std::size_t i = 0; i < want.size(); ++i) {
      sum += want[i];
      if (moles) got[i] /= th_.M[i];
      gsum += got[i];
    }
    if (!near(ysum, 1, 1e-12)) {
      bad("read-back", "after %s the mass fractions sum to %.17g", text(op).c_str(), ysum);
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
      if (!near(got[i] / gsum, want[i] / sum, 1e-12)) {
        bad("read-back", "after %s fraction %zu is %.17g instead of %.17g", text(op).c_str(), i, got[i] / gsum, want[i] / sum);
      }
    }
  }

  void check(Reactor& r, const Reactor& old, const Snap& before, const Op& op, const Outcome& o, const Watched& w) {
    const std::string t = text(op);
    const bool array_op = op.kind >= kArrayState && op.kind <= kArrayEnergyMasked;
    if (array_op ? !same(o.after.scalar, before.scalar) : !same(o.after.array, before.array)) {
      bad("side-effect", "%s changed the %s state: %s", t.c_str(), array_op ? "scalar" : "array",
          difference(array_op ? Snap{o.after.scalar, {}} : Snap{{}, o.after.array},
                     array_op ? Snap{before.scalar, {}} : Snap{{}, before.array})
              .c_str());
    }
    if (!o.error.empty()) {
      const bool fine = (op.kind == kAdvance && op.observer == kThrow && o.error == "Stop " + std::to_string(op.at)) ||
                        (op.kind == kRead && op.at == 3 && o.error == "FlameMasterReactorException");
      // Far beyond the temperatures that the mechanism is made for, the rates
      // may be too stiff to be integrated; saying so is all one can ask for.
      const double T = r.GetTemperature();
      if ((op.kind == kAdvance || op.kind == kFindMax) && o.error.rfind("RadauSolver: ", 0) == 0 &&
          !in_range(T)) {
        return;
      }
      if (op.kind == kIsentropic && o.error.rfind("RadauSolver: ", 0) == 0 &&
          !in_range(old.GetTemperature() * std::pow(op.x / old.GetPressure(), 0.4))) {
        return;
      }
      if (!fine) {
        bad("failed", "%s failed with '%s' at T=%.9g rho=%.9g", t.c_str(), o.error.c_str(), old.GetTemperature(),
            old.GetDensity());
        return;
      }
      if (op.kind == kAdvance) {
        fresh_is_the_same(r, op, op.y, 1.0, op.v);
        return;
      }
    }
    if (!o.observer_trouble.empty()) {
      bad("observer", "%s: observer: %s", t.c_str(), o.observer_trouble.c_str());
    }
    if (!array_op) {
      consistent(r, op);
    }
    switch (op.kind) {
    case kTemperature:
      if (r.GetTemperature() != op.x) bad("read-back", "%s is read back as %.17g", t.c_str(), r.GetTemperature());
      expect_unchanged(r, old, op, false, true, true);
      break;
    case kDensity:
      if (r.GetDensity() != op.x) bad("read-back", "%s is read back as %.17g", t.c_str(), r.GetDensity());
      expect_unchanged(r, old, op, true, false, true);
      break;
    case kPressure:
      if (!near(r.GetPressure(), op.x, 1e-12)) bad("read-back", "%s is read back as %.17g", t.c_str(), r.GetPressure());
      expect_unchanged(r, old, op, true, false, true);
      break;
    case kBadString:
      if (o.value != 1) bad("read-back", "the malformed composition '%s' was accepted", op.s.c_str());
      [[fallthrough]];
    case kMassFractions:
    case kMassString:
      expect_fractions(r, op, op.v, false);
      expect_unchanged(r, old, op, true, true, false);
      break;
    case kMoleFractions:
    case kMoleString:
      expect_fractions(r, op, op.v, true);
      expect_unchanged(r, old, op, true, true, false);
      break;
    case kEnergy:
    case kEnthalpy: {
      const double tol = op.y == 0 ? 1e-6 : op.y;
      const double got = op.kind == kEnergy ? r.GetInternalEnergy() : r.GetEnthalpy();
      const Vec Y = mass_fractions(r);
      const double allowed = 4 * r.GetCp() * tol + 1e-5 * tol * std::abs(op.x) + 1e-12 * th_.scale(Y, r.GetTemperature());
      if (!(std::abs(got - op.x) <= allowed)) {
        bad("read-back", "%s is read back as %.17g", t.c_str(), got);
      }
      expect_unchanged(r, old, op, false, true, true);
      break;
    }
    case kAdvance:
    case kFindMax: advanced(r, old, op, o, w); break;
    case kIsentropic: isentropic(r, old, op, o); break;
    case kSolver:
      settings_ = {op.x, op.y};
      expect_unchanged(r, old, op, true, true, true);
      break;
    case kReset:
      expect_fractions(r, op, op.v, false);
      if (r.GetTemperature() != op.x || r.GetDensity() != op.y) bad("read-back", "%s is not read back", t.c_str());
      fresh_is_the_same(r, op, op.x, op.y, op.v);
      break;
    case kRead:
      if (!same(o.after.scalar, before.scalar)) {
        bad("side-effect", "reading changed the state: %s", difference(o.after, before).c_str());
      }
      break;
    case kArrayState:
    case kArrayMasked:
    case kArrayEnergy:
    case kArrayEnergyMasked: lanes(r, op); break;
    default: break;
    }
  }

  /// A reactor with a history and a new one in the same state behave the same.
  void fresh_is_the_same(const Reactor& r, const Op& op, double T, double rho, const Vec& Y) {
    Reactor fresh(mech_);
    auto s = std::make_unique<fub::RadauSolver>();
    s->relative_tolerance = settings_.rtol;
    s->absolute_tolerance = settings_.atol;
    fresh.SetOdeSolver(std::move(s));
    fresh.SetMassFractions(Y);
    fresh.SetTemperature(T);
    fresh.SetDensity(rho);
    Reactor copy(r);
    Snap a = snapshot(copy), b = snapshot(fresh);
    if (!same(a.scalar, b.scalar)) {
      bad("history", "after %s a reactor with a history differs from a new one: %s", text(op).c_str(),
          difference(Snap{a.scalar, {}}, Snap{b.scalar, {}}).c_str());
    }
    Op adv;
    adv.kind = kAdvance;
    adv.x = 1e-6;
    const Outcome x = apply(copy, adv), y = apply(fresh, adv);
    if (x.error != y.error || !same(x.after.scalar, y.after.scalar)) {
      bad("history", "after %s a reactor with a history advances differently than a new one: %s", text(op).c_str(),
          difference(Snap{x.after.scalar, {}}, Snap{y.after.scalar, {}}).c_str());
    }
  }

  void note(int i, double x) { worst[static_cast<std::size_t>(i)] = std::max(worst[static_cast<std::size_t>(i)], x); }

  void advanced(Reactor& r, const Reactor& old, const Op& op, const Outcome& o, const Watched& w) {
    const std::string t = text(op);
    const double tol = std::pow(settings_.rtol, 8.0 / 14);
    expect_unchanged(r, old, op, op.x == 0, true, op.x == 0);
    const Vec Y0 = mass_fractions(old), Y = mass_fractions(r);
    const double T0 = old.GetTemperature(), T = r.GetTemperature();
    const double scale = std::max(th_.scale(Y0, T0), th_.scale(Y, T));
    const double du = std::abs(th_.energy(Y, T) - th_.energy(Y0, T0)) / scale;
    note(0, du / tol);
    if (!(du <= 30 * tol + 1e-9)) {
      bad("energy", "%s at T=%.9g rho=%.9g rtol=%.3g changed the internal energy from %.17g to %.17g", t.c_str(), T0,
          old.GetDensity(), settings_.rtol, th_.energy(Y0, T0), th_.energy(Y, T));
    }
    double sum0 = 0, sum = 0, least = 0;
    for (double y : Y0) sum0 += y;
    for (double y : Y) sum += y;
    for (double y : Y) least = std::min(least, y);
    note(1, std::abs(sum - sum0) / tol);
    note(2, -least / tol);
    if (!(std::abs(sum - sum0) <= 0.5 * tol + 1e-9)) {
      bad("mass", "%s at T=%.9g rho=%.9g rtol=%.3g: the mass fractions sum to %.17g", t.c_str(), T0, old.GetDensity(),
          settings_.rtol, sum);
    }
    if (!(least >= -(0.5 * tol + 1e-9))) {
      bad("mass", "%s at T=%.9g rho=%.9g rtol=%.3g: a mass fraction of %.17g", t.c_str(), T0, old.GetDensity(),
          settings_.rtol, least);
    }
    for (int e = 0; e < 5; ++e) {
      double a = 0, b = 0;
      for (std::size_t i = 0; i < Y.size(); ++i) {
        a += kAtoms[i][e] * Y0[i] / th_.M[i];
        b += kAtoms[i][e] * Y[i] / th_.M[i];
      }
      note(3, std::abs(a - b) / tol);
      if (!(std::abs(a - b) <= 0.1 * tol + 1e-9)) {
        bad("elements", "%s at T=%.9g rho=%.9g rtol=%.3g: element %d has %.17g instead of %.17g kmol/kg", t.c_str(), T0,
            old.GetDensity(), settings_.rtol, e, b, a);
      }
    }
    // The same advance in the other manners.
    Op plain = op;
    plain.kind = kAdvance;
    plain.observer = op.kind == kFindMax || op.observer == kNone ? kWatch : kNone;
    Reactor copy(old);
    Watched w2;
    const Outcome p = apply(copy, plain, &w2);
    Outcome q = o;
    if (op.kind == kFindMax) {
      // It starts from the moles as the last advance left them; Advance derives
      // them from the mass fractions again, which costs the last digit.
      Reactor again(old);
      again.GetMoleFractions();
      q = apply(again, op);
      if (q.error != o.error) {
        bad("observer", "%s fails with \"%s\" or \"%s\"", t.c_str(), q.error.c_str(), o.error.c_str());
      }
      compare(again.GetTemperature(), mass_fractions(again), T, Y, tol, t, "repeating it");
    }
    if (p.error != q.error || !same(p.after.scalar, q.after.scalar)) {
      bad("observer", "%s: with and without observer differ: %s", t.c_str(), difference(q.after, p.after).c_str());
    }
    if (op.kind == kFindMax) {
      double best = -9000, arg = -1, told = 0, Told = T0;
      for (std::size_t i = 0; i < w2.t.size(); ++i) {
        const double slope = (Told - w2.T[i]) / (told - w2.t[i]);
        told = w2.t[i];
        Told = w2.T[i];
        if (best < slope) {
          best = slope;
          arg = w2.t[i];
        }
      }
      if (arg != -1 && !near(q.value, arg, 1e-12)) {
        bad("peak", "%s says that the temperature rises fastest at %.17g, the observer says %.17g", t.c_str(), q.value, arg);
      }
    }
    if (op.x == 0 || !in_range(T)) {
      return;
    }
    try {
      in_other_ways(old, op, Y0, Y, T0, T, tol);
    } catch (std::exception& e) {
      if (in_range(T)) {
        bad("failed", "%s in another way failed with '%s' at T=%.9g rho=%.9g", t.c_str(), e.what(), T0, old.GetDensity());
      }
    }
  }

  // Two halves, and our own right-hand side.
  void in_other_ways(const Reactor& old, const Op& op, const Vec& Y0, const Vec& Y, double T0, double T, double tol) {
    const std::string t = text(op);
    if (op.at & 1) {
      Reactor two(old);
      two.Advance(0.5 * op.x);
      two.Advance(0.5 * op.x);
      compare(two.GetTemperature(), mass_fractions(two), T, Y, tol, t, "two halves");
    }
    if (op.at & 2) {
      const std::size_t n = Y.size();
      Vec X(n + 1);
      X[0] = T0;
      for (std::size_t i = 0; i < n; ++i) X[i + 1] = Y0[i] * old.GetDensity() / th_.M[i];
      Vec rates(static_cast<std::size_t>(mech_.getNReactions())), k(rates.size()),
          m(static_cast<std::size_t>(mech_.getNThirdBodyReactions())), c(n), dc(n);
      fub::RadauSolver solver;
      solver.relative_tolerance = settings_.rtol;
      solver.absolute_tolerance = settings_.atol;
      solver.Integrate(
          [&](span<double> f, span<const double> x, double) {
            double total = 0, heat = 0, cv = 0;
            for (std::size_t i = 0; i < n; ++i) {
              c[i] = x[static_cast<std::ptrdiff_t>(i) + 1];
              total += c[i];
            }
            mech_.ComputeProductionRates(dc, rates, k, c, m, x[0], total * th_.R * x[0]);
            th_.at(x[0]);
            for (std::size_t i = 0; i < n; ++i) {
              heat += (th_.h[i] * th_.M[i] - th_.R * x[0]) * dc[i];
              cv += x[static_cast<std::ptrdiff_t>(i) + 1] * (th_.cp[i] * th_.M[i] - th_.R);
              f[static_cast<std::ptrdiff_t>(i) + 1] = dc[i];
            }
            f[0] = -heat / cv;
          },
          X, 0.0, op.x);
      Vec Yr(n);
      for (std::size_t i = 0; i < n; ++i) Yr[i] = X[i + 1] * th_.M[i] / old.GetDensity();
      compare(X[0], Yr, T, Y, tol, t, "the heat release and production rates");
    }
  }

  void compare(double Ta, const Vec& Ya, double T, const Vec& Y, double tol, const std::string& t, const char* what) {
    double err = std::abs(Ta - T) / std::max(Ta, T);
    for (std::size_t i = 0; i < Y.size(); ++i) err = std::max(err, std::abs(Ya[i] - Y[i]));
    note(what[0] == 't' && what[1] == 'w' ? 4 : 5, err / tol);
    // An ignition between the two amplifies the error.
    if (!(err <= 1e3 * tol)) {
      bad("accuracy", "%s, rtol=%.3g: compared with %s the result is off by %.3g (T %.12g and %.12g)", t.c_str(),
          settings_.rtol, what, err, T, Ta);
    }
  }

  void isentropic(const Reactor& r, const Reactor& old, const Op& op, const Outcome& o) {
    const std::string t = text(op);
    const Vec Y = mass_fractions(old);
    expect_unchanged(r, old, op, false, false, true);
    if (!near(r.GetPressure(), op.x, 1e-11, 1e-5)) {
      bad("read-back", "%s is read back as %.17g", t.c_str(), r.GetPressure());
    }
    if (std::abs(op.x - old.GetPressure()) < 1e-5) {
      return;
    }
    const double Rs = th_.R * th_.inv_mass(Y);
    const int n = 400;
    const double dl = std::log(op.x / old.GetPressure()) / n;
    double T = old.GetTemperature(), u = 0;
    auto slope = [&](double x, double& v) {
      const double cp = th_.cp_of(Y, x);
      v = -std::sqrt((cp - Rs) / cp * Rs * x);
      return Rs * x / cp;
    };
    for (int i = 0; i < n; ++i) {
      double v1, v2, v3, v4;
      const double k1 = slope(T, v1), k2 = slope(T + 0.5 * dl * k1, v2), k3 = slope(T + 0.5 * dl * k2, v3),
                   k4 = slope(T + dl * k3, v4);
      T += dl / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
      u += dl / 6 * (v1 + 2 * v2 + 2 * v3 + v4);
    }
    const double tol = 1e-6 + 10 * std::pow(settings_.rtol, 8.0 / 14);
    note(6, std::max(std::abs(T / r.GetTemperature() - 1), std::abs(u - o.value) / (std::abs(u) + 1)) / tol);
    if (!near(r.GetTemperature(), T, tol)) {
      bad("isentropic", "%s from T=%.9g p=%.9g ends at T=%.12g instead of %.12g", t.c_str(), old.GetTemperature(),
          old.GetPressure(), r.GetTemperature(), T);
    }
    if (!near(o.value, u, tol, tol)) {
      bad("isentropic", "%s from T=%.9g p=%.9g returns the velocity %.12g instead of %.12g", t.c_str(),
          old.GetTemperature(), old.GetPressure(), o.value, u);
    }
  }

  void lanes(const Reactor& r, const Op& op) {
    const bool masked = op.kind == kArrayMasked || op.kind == kArrayEnergyMasked;
    const bool energy = op.kind == kArrayEnergy || op.kind == kArrayEnergyMasked;
    const int n = r.GetNSpecies();
    for (int l = 0; l < kLanes; ++l) {
      if (masked && !((op.mask >> l) & 1u)) {
        continue;
      }
      Reactor s(mech_);
      Vec Y(static_cast<std::size_t>(n));
      for (int i = 0; i < n; ++i) Y[static_cast<std::size_t>(i)] = op.v[static_cast<std::size_t>(3 * kLanes + i * kLanes + l)];
      s.SetMassFractions(Y);
      s.SetTemperature(op.v[static_cast<std::size_t>(l)]);
      const double x = op.v[static_cast<std::size_t>(kLanes + l)];
      !energy && op.at ? s.SetPressure(x) : s.SetDensity(x);
      if (energy) {
        s.SetInternalEnergy(op.v[static_cast<std::size_t>(2 * kLanes + l)]);
      }
      const double rel = energy ? 1e-7 : 1e-10;
      const Vec Ys = mass_fractions(s);
      const double scale = rel * th_.scale(Ys, s.GetTemperature());
      struct {
        const char* name;
        double got, want, abs;
      } q[] = {{"temperature", r.GetTemperatureArray()[l], s.GetTemperature(), 0},
               {"density", r.GetDensityArray()[l], s.GetDensity(), 0},
               {"pressure", r.GetPressureArray()[l], s.GetPressure(), 0},
               {"mean molar mass", r.GetMeanMolarMassArray()[l], s.GetMeanMolarMass(), 0},
               {"enthalpy", r.GetEnthalpyArray()[l], s.GetEnthalpy(), scale},
               {"internal energy", r.GetInternalEnergyArray()[l], s.GetInternalEnergy(), scale},
               {"cp", r.GetCpArray()[l], s.GetCp(), 0},
               {"cv", r.GetCvArray()[l], s.GetCv(), 0}};
      for (const auto& f : q) {
        if (!near(f.got, f.want, rel, f.abs)) {
          bad("lane", "%s: %s of lane %d is %.17g, that of the scalar state %.17g", text(op).c_str(), f.name, l, f.got, f.want);
        }
      }
      for (int i = 0; i < n; ++i) {
        if (!near(r.GetMassFractionsArray()(i, l), Ys[static_cast<std::size_t>(i)], 1e-12)) {
          bad("lane", "%s: mass fraction %d of lane %d is %.17g instead of %.17g", text(op).c_str(), i, l,
              r.GetMassFractionsArray()(i, l), Ys[static_cast<std::size_t>(i)]);
        }
      }
    }
  }
};

// ---------------------------------------------------------------- drawing
Vec draw_fractions(int n) {
  Vec v(static_cast<std::size_t>(n));
  switch (choose(4, "mixture")) {
  case 0: // a fuel, oxygen and something inert
    v[6] = uniform(0.0, 0.3, "H2");
    v[3] = uniform(0.05, 0.5, "O2");
    v[0] = uniform(0.0, 1.0, "N2");
    break;
  case 1: // anything
    for (double& x : v) x = chance(0.5, "present") ? uniform(0, 1, "fraction") : 0.0;
    v[0] += 0.1;
    break;
  case 2: // traces
    for (double& x : v) x = log_uniform(1e-25, 1, "trace");
    v[3] += 0.1;
    break;
  default: // one species
    v[choose(static_cast<uint64_t>(n), "species")] = 1;
    break;
  }
  if (chance(0.15, "negative")) {
    v[choose(static_cast<uint64_t>(n), "which")] = -1e-10;
    v[0] += 0.5;
  }
  return v;
}

std::string draw_string(Vec& v, const std::vector<std::string>& names, bool bad) {
  std::string s;
  bool first = true;
  char buf[60];
  for (std::size_t i = 0; i < v.size(); ++i) {
    v[i] = std::max(0.0, v[i]);
    if (v[i] == 0) continue;
    std::snprintf(buf, sizeof buf, chance(0.3, "exponent") ? "%.12e" : "%.15g", v[i]);
    v[i] = std::atof(buf);
    const char* sep = first ? "" : chance(0.5, "space") ? ", " : ",";
    s += std::string(sep) + names[i] + (chance(0.3, "blank") ? ": " : ":") + buf;
    first = false;
  }
  if (bad) {
    switch (choose(4, "malformed")) {
    case 0: s += ",XYZ:1"; break;
    case 1: s = "H2"; break;
    case 2: s += ",O2:x"; break;
    default: s.clear(); break;
    }
  }
  return s;
}

Op draw_op(const fub::FlameMasterMechanism& mech, const std::vector<std::string>& names) {
  const int n = mech.getNSpecies();
  Op op;
  static const Kind menu[] = {kTemperature, kDensity, kPressure, kMassFractions, kMassString, kBadString,
                              kMoleFractions, kMoleString, kEnergy, kEnthalpy, kAdvance, kAdvance, kAdvance, kFindMax,
                              kIsentropic, kSolver, kReset, kReset, kRead, kRead, kArrayState, kArrayMasked,
                              kArrayEnergy, kArrayEnergyMasked};
  op.kind = menu[choose(sizeof menu / sizeof *menu, "kind")];
  switch (op.kind) {
  case kTemperature: op.x = uniform(250, 3200, "T"); break;
  case kDensity: op.x = log_uniform(1e-3, 50, "rho"); break;
  case kPressure: op.x = log_uniform(1e3, 1e7, "p"); break;
  case kMassFractions:
  case kMoleFractions: op.v = draw_fractions(n); break;
  case kMassString:
  case kMoleString:
    op.v = draw_fractions(n);
    op.s = draw_string(op.v, names, false);
    break;
  case kBadString: {
    Vec ignored = draw_fractions(n);
    op.s = draw_string(ignored, names, true);
    op.v = draw_fractions(n);
    op.at = static_cast<int>(choose(2, "moles"));
    break;
  }
  case kEnergy:
  case kEnthalpy:
    op.x = uniform(300, 3000, "T"); // replaced by the value at this temperature
    op.y = chance(0.3, "tolerance") ? log_uniform(1e-8, 1e-3, "dTtol") : 0.0;
    break;
  case kAdvance:
  case kFindMax:
    op.x = log_uniform(1e-9, 1e-3, "dt");
    op.at = static_cast<int>(choose(4, "compare"));
    if (op.kind == kAdvance) {
      if (chance(0.03, "dt zero")) op.x = 0;
      op.observer = static_cast<int>(choose(5, "observer"));
      if (op.observer == kThrow) {
        op.at = static_cast<int>(range(1, 20, "when"));
        op.v = draw_fractions(n);
        op.y = uniform(300, 2500, "T");
      }
    }
    break;
  case kIsentropic: op.x = log_uniform(0.3, 3, "pressure ratio"); break; // times the pressure
  case kSolver:
    op.x = log_uniform(1e-12, 1e-5, "rtol");
    op.y = log_uniform(1e-15, 1e-11, "atol");
    op.at = static_cast<int>(choose(2, "null"));
    break;
  case kReset:
    op.v = draw_fractions(n);
    op.x = uniform(300, 3000, "T");
    op.y = log_uniform(1e-2, 10, "rho");
    break;
  case kRead: op.at = static_cast<int>(choose(4, "what")); break;
  default: {
    op.at = static_cast<int>(choose(2, "pressure"));
    op.mask = static_cast<unsigned>(choose(256, "mask"));
    const bool energy = op.kind == kArrayEnergy || op.kind == kArrayEnergyMasked;
    op.v.resize(static_cast<std::size_t>((3 + n) * kLanes));
    Thermo th(mech);
    Vec common = draw_fractions(n);
    for (int l = 0; l < kLanes; ++l) {
      const auto L = static_cast<std::size_t>(l);
      Vec Y = chance(0.3, "other mixture") ? draw_fractions(n) : common;
      for (int i = 0; i < n; ++i) op.v[static_cast<std::size_t>((3 + i) * kLanes + l)] = Y[static_cast<std::size_t>(i)];
      op.v[L] = uniform(250, 3200, "T");
      op.v[kLanes + L] = !energy && op.at ? log_uniform(1e3, 1e7, "p") : log_uniform(1e-3, 50, "rho");
      double sum = 0;
      for (double& y : Y) sum += y = std::max(0.0, y);
      for (double& y : Y) y /= sum;
      op.v[2 * kLanes + L] = th.energy(Y, uniform(300, 3000, "target"));
    }
    break;
  }
  }
  return op;
}

/// Arguments that depend on the state of the object.
void complete(Op& op, const Reactor& r) {
  const Vec Y = mass_fractions(r);
  Thermo th(r.getMechanism());
  switch (op.kind) {
  case kEnergy: op.x = th.energy(Y, op.x); break;
  case kEnthalpy: op.x = th.enthalpy(Y, op.x); break;
  case kIsentropic: op.x *= r.GetPressure(); break;
  default: break;
  }
}

struct Slot {
  std::unique_ptr<Reactor> r;
  std::vector<int> log; // the operations that led to its state
  bool live() const { return r != nullptr; }
};

} // namespace

void run_c13() {
  const fub::Burke2012 mech{};
  const std::vector<std::string> names = mech.getSpeciesNames();
  const int nslots = static_cast<int>(1 + choose(5, "reactors"));
  const int nphases = static_cast<int>(1 + choose(3, "phases"));

  std::vector<Op> ops;          // operations on objects, by number
  std::vector<Outcome> live;    // what they came to
  std::vector<bool> done;
  std::vector<std::vector<std::vector<int>>> program; // phase, thread, numbers
  std::vector<std::vector<int>> shared(static_cast<std::size_t>(nphases));
  for (int ph = 0; ph < nphases; ++ph) {
    const int ntasks = static_cast<int>(1 + choose(4, "threads"));
    std::vector<std::vector<int>> mine(static_cast<std::size_t>(ntasks));
    // A reactor that all threads may copy from but none changes.
    const int prototype = nslots > 1 && chance(0.4, "prototype") ? static_cast<int>(choose(static_cast<uint64_t>(nslots), "which")) : -1;
    shared[static_cast<std::size_t>(ph)].push_back(prototype);
    for (int s = 0; s < nslots; ++s) {
      if (s != prototype) {
        mine[choose(static_cast<uint64_t>(ntasks), "owner")].push_back(s);
      }
    }
    program.emplace_back(static_cast<std::size_t>(ntasks));
    for (int t = 0; t < ntasks; ++t) {
      auto& m = mine[static_cast<std::size_t>(t)];
      if (m.empty()) continue;
      const int k = static_cast<int>(1 + choose(6, "operations"));
      for (int i = 0; i < k; ++i) {
        Op op;
        if (chance(0.3, "between objects")) {
          op.kind = static_cast<Kind>(kCopyConstruct + static_cast<int>(choose(8, "how")));
          op.slot = sim::pick(m, "slot");
          op.other = sim::pick(m, "other");
          const bool reads = op.kind == kCopyConstruct || op.kind == kCopyAssign || op.kind == kCopyAssignNoMemory;
          if (reads && prototype >= 0 && chance(0.5, "from prototype")) {
            op.other = prototype;
          }
          if (op.kind == kCopyAssignNoMemory) {
            op.at = static_cast<int>(choose(24, "allocation"));
          }
        } else {
          op = draw_op(mech, names);
          op.slot = sim::pick(m, "slot");
        }
        program.back()[static_cast<std::size_t>(t)].push_back(static_cast<int>(ops.size()));
        ops.push_back(op);
      }
    }
  }
  live.resize(ops.size());
  done.resize(ops.size());
  if (ops.empty()) {
    sim::finish();
  }
  sim::mark_nontrivial();
  char desc[120];
  std::snprintf(desc, sizeof desc, "%d reactors, %d phases, %zu operations", nslots, nphases, ops.size());
  sim::describe(desc);

  const double gap = std::exp(uniform(std::log(20.0), std::log(50000.0), "mean-gap"));
  std::vector<Slot> slot(static_cast<std::size_t>(nslots));
  std::vector<std::vector<int>> logs; // finished sequences
  for (auto& s : slot) {
    s.r = std::make_unique<Reactor>(mech);
  }

  auto between = [&](const Op& op) {
    Slot& a = slot[static_cast<std::size_t>(op.slot)];
    Slot& b = slot[static_cast<std::size_t>(op.other)];
    const bool self = &a == &b;
    auto retire = [&](Slot& s) {
      if (!s.log.empty()) logs.push_back(s.log);
    };
    auto expect_same = [&](const Snap& got, const Snap& want, const char* what) {
      const std::string d = difference(got, want);
      if (!d.empty()) {
        sim::violate("copy", "%s: %s: %s", kName[op.kind], what, d.c_str());
      }
    };
    sim::count(std::string("operation: ") + kName[op.kind]);
    switch (op.kind) {
    case kNew:
      retire(a);
      a.r = std::make_unique<Reactor>(mech);
      a.log.clear();
      break;
    case kCopyConstruct: {
      const Snap want = snapshot(*b.r);
      auto c = std::make_unique<Reactor>(*b.r);
      expect_same(snapshot(*c), want, "the copy differs from its source");
      expect_same(snapshot(*b.r), want, "the source changed");
      if (!self) {
        retire(a);
        a.log = b.log;
      }
      a.r = std::move(c);
      break;
    }
    case kMoveConstruct: {
      const Snap want = snapshot(*b.r);
      auto c = std::make_unique<Reactor>(std::move(*b.r));
      expect_same(snapshot(*c), want, "the new object differs from what was moved into it");
      if (!self) {
        retire(a);
        a.log = b.log;
        b.r = std::make_unique<Reactor>(mech);
        b.log.clear();
      }
      a.r = std::move(c);
      break;
    }
    case kCopyAssign: {
      const Snap want = snapshot(*b.r);
      *a.r = static_cast<const Reactor&>(*b.r);
      expect_same(snapshot(*a.r), want, "the target differs from its source");
      expect_same(snapshot(*b.r), want, "the source changed");
      if (!self) {
        retire(a);
        a.log = b.log;
      }
      break;
    }
    case kCopyAssignNoMemory: {
      const Snap before = snapshot(*a.r), want = snapshot(*b.r);
      bool failed = false;
      fail_allocation(op.at);
      try {
        *a.r = static_cast<const Reactor&>(*b.r);
      } catch (const std::bad_alloc&) {
        failed = true;
      }
      fail_allocation(-1);
      sim::count(failed ? "fault:allocation failure while assigning" : "assignments that needed less memory");
      expect_same(snapshot(*a.r), failed ? before : want, failed ? "a failed assignment changed its target" : "the target differs from its source");
      if (!failed && !self) {
        retire(a);
        a.log = b.log;
      }
      break;
    }
    case kMoveAssign:
      if (!self) {
        const Snap want = snapshot(*b.r);
        *a.r = std::move(*b.r);
        expect_same(snapshot(*a.r), want, "the target differs from what was moved into it");
        retire(a);
        a.log = b.log;
        // A moved-from reactor can be assigned to again.
        if (op.at == 0) {
          *b.r = static_cast<const Reactor&>(*a.r);
          expect_same(snapshot(*b.r), want, "a moved-from reactor that was assigned to differs from its source");
        }
      }
      break;
    case kSwap: {
      if (self) {
        break;
      }
      const Snap x = snapshot(*a.r), y = snapshot(*b.r);
      std::swap(*a.r, *b.r);
      expect_same(snapshot(*a.r), y, "the first object is not what the second was");
      expect_same(snapshot(*b.r), x, "the second object is not what the first was");
      std::swap(a.log, b.log);
      break;
    }
    case kSelfAssign: {
      const Snap x = snapshot(*a.r);
      const Reactor& same_object = *a.r;
      *a.r = same_object;
      expect_same(snapshot(*a.r), x, "the object changed");
      break;
    }
    default: break;
    }
  };

  for (std::size_t ph = 0; ph < program.size(); ++ph) {
    std::vector<int> tasks;
    for (std::size_t t = 0; t < program[ph].size(); ++t) {
      tasks.push_back(sim::spawn("thread " + std::to_string(t), 0, [&, t, ph] {
        for (int id : program[ph][t]) {
          sim::yield("operation");
          Op& op = ops[static_cast<std::size_t>(id)];
          if (op.kind > kKinds) {
            sim::event("thread %zu: %s, reactors %d and %d", t, kName[op.kind], op.slot, op.other);
            between(op);
            continue;
          }
          Slot& s = slot[static_cast<std::size_t>(op.slot)];
          complete(op, *s.r);
          sim::count(std::string("operation: ") + kName[op.kind]);
          if (op.kind == kAdvance && op.observer == kThrow) sim::count("fault:throw in observer");
          if (op.kind == kBadString) sim::count("fault:malformed input");
          sim::enable_access_preemption(gap, 120);
          const Outcome o = apply(*s.r, op);
          sim::disable_access_preemption();
          live[static_cast<std::size_t>(id)] = o;
          done[static_cast<std::size_t>(id)] = true;
          s.log.push_back(id);
          sim::event("thread %zu: reactor %d: %d %s%s%s: T=%.12g p=%.12g, %ld observed", t, op.slot, id, text(op).c_str(),
                     o.error.empty() ? "" : " ", o.error.c_str(), o.after.scalar[0], o.after.scalar[2], o.seen);
        }
      }));
    }
    sim::join(tasks);
  }
  for (auto& s : slot) {
    if (!s.log.empty()) logs.push_back(s.log);
  }

  std::sort(logs.begin(), logs.end());
  logs.erase(std::unique(logs.begin(), logs.end()), logs.end());
  for (std::size_t i = 0; i < logs.size(); ++i) {
    const auto& log = logs[i];
    // A sequence that another one continues needs no repetition of its own.
    if (i + 1 < logs.size() && log.size() <= logs[i + 1].size() && std::equal(log.begin(), log.end(), logs[i + 1].begin())) {
      continue;
    }
    std::string died;
    Bytes b;
    b.s = isolated(
        [&] {
          Bytes out;
          Judge judge(mech);
          Reactor r(mech);
          for (int id : log) {
            judge.step(r, ops[static_cast<std::size_t>(id)]).pack(out);
          }
          Bytes head;
          head.put(static_cast<int>(judge.verdict.has_value()));
          head.put_string(judge.verdict ? judge.verdict->cls : "");
          head.put_string(judge.verdict ? judge.verdict->msg : "");
          head.put_doubles(judge.worst.data(), judge.worst.size());
          return head.s + out.s;
        },
        died);
    if (!died.empty()) {
      sim::violate("crash", "the process %s while it repeated the operations of one reactor", died.c_str());
    }
    const int bad = b.get<int>();
    const std::string cls = b.get_string(), msg = b.get_string();
    const Vec worst = b.get_doubles();
    static const char* const wname[] = {"energy", "mass", "negative", "elements", "halves", "own rhs", "isentropic", ""};
    for (int k = 0; k < 7; ++k) {
      const double x = worst[static_cast<std::size_t>(k)];
      if (x > 0) {
        const int dec = static_cast<int>(std::ceil(std::log10(std::max(x, 1e-9))));
        sim::count(std::string("error/tolerance of ") + wname[k] + " below 1e" + std::to_string(dec));
      }
    }
    if (bad) {
      sim::violate(cls.c_str(), "%s", msg.c_str());
    }
    for (int id : log) {
      const Outcome want = Outcome::unpack(b);
      const Outcome& got = live[static_cast<std::size_t>(id)];
      const Op& op = ops[static_cast<std::size_t>(id)];
      std::string d = difference(got.after, want.after);
      if (d.empty()) {
        d = got.error != want.error ? "'" + got.error + "' instead of '" + want.error + "'"
            : !same(got.values, want.values) || std::memcmp(&got.value, &want.value, sizeof(double)) != 0
                ? "it returned something else"
            : got.seen != want.seen || got.seen_hash != want.seen_hash ? "its observer saw something else"
            : got.observer_trouble != want.observer_trouble            ? "observer: " + got.observer_trouble
                                                                       : "";
      }
      if (!d.empty()) {
        sim::violate("not-isolated", "operation %d, %s, on a reactor among others differs from the same on a reactor alone: %s",
                     id, text(op).c_str(), d.c_str());
      }
    }
    sim::count("sequences repeated alone");
    sim::count("operations repeated alone", static_cast<long>(log.size()));
  }
  sim::cover(sim::execution_hash());
}

} // namespace ode
