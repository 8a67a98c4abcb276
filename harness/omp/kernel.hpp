// Numerical kernels of the repository behind an interface without templates.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace omp {

using Idx = std::array<std::ptrdiff_t, 3>;
struct Box {
  Idx lo{}, hi{};
  std::ptrdiff_t size() const {
    std::ptrdiff_t n = 1;
    for (int d = 0; d < 3; ++d) {
      n *= hi[d] > lo[d] ? hi[d] - lo[d] : 0;
    }
    return n;
  }
  bool contains(const Idx& i) const {
    for (int d = 0; d < 3; ++d) {
      if (i[d] < lo[d] || i[d] >= hi[d]) {
        return false;
      }
    }
    return true;
  }
  Box grown(int dir, std::ptrdiff_t l, std::ptrdiff_t u) const {
    Box b = *this;
    b.lo[static_cast<std::size_t>(dir)] -= l;
    b.hi[static_cast<std::size_t>(dir)] += u;
    return b;
  }
};

template <typename F> void each(const Box& b, F f) {
  for (auto k = b.lo[2]; k < b.hi[2]; ++k) {
    for (auto j = b.lo[1]; j < b.hi[1]; ++j) {
      for (auto i = b.lo[0]; i < b.hi[0]; ++i) {
        f(Idx{i, j, k});
      }
    }
  }
}

/// The components of a state on a box, one after the other, with some room
/// before and after.
struct Field {
  static constexpr std::size_t kPad = 32;
  Box box;
  int comps = 0;
  std::vector<double> v;
  Field() = default;
  Field(const Box& b, int n, double fill)
      : box{b}, comps{n}, v(static_cast<std::size_t>(b.size() * n) + 2 * kPad, fill) {}
  std::size_t offset(int c, const Idx& i) const {
    const auto n0 = box.hi[0] - box.lo[0], n1 = box.hi[1] - box.lo[1];
    return kPad + static_cast<std::size_t>(box.size() * c + i[0] - box.lo[0] +
                                           n0 * (i[1] - box.lo[1] + n1 * (i[2] - box.lo[2])));
  }
  double& operator()(int c, const Idx& i) { return v[offset(c, i)]; }
  double operator()(int c, const Idx& i) const { return v[offset(c, i)]; }
  double* component(int c) { return v.data() + kPad + box.size() * c; }
  const double* component(int c) const { return v.data() + kPad + box.size() * c; }
};

enum Policy { kDefault, kSeq, kSimd, kOpenMp, kOpenMpSimd, kPolicies };
const char* const kPolicyName[] = {"no policy", "seq", "simd", "openmp", "openmp_simd"};

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  /// in [-1, 1), with only a few digits
  double unit() { return static_cast<double>(next() >> 48) / 32768.0 - 1.0; }
};

class Kernel {
public:
  virtual ~Kernel() = default;
  virtual std::unique_ptr<Kernel> clone() const = 0;
  virtual void assign(const Kernel& other) = 0;
  virtual void move_from(Kernel& other) = 0;
  /// One state; x holds numbers in [-1, 1], r says how much they matter.
  virtual void state(double* q, const std::vector<double>& x, double r) = 0;
  virtual void fluxes(int policy, Field& f, const Box& faces, const Field& q, const Box& cells, double dt, double dx,
                      int dir) = 0;
  virtual double stable_dt(int policy, const Field& q, const Box& cells, double dx, int dir) = 0;
  virtual void complete(int policy, Field& q, const Box& cells, const Field& u) = 0;
  /// The same on single cells.
  virtual void flux_at(double* f, const Field& q, const Idx& face, double dt, double dx, int dir) = 0;
  virtual double dt_at(const Field& q, const Idx& first, double dx, int dir) = 0;
  virtual void complete_at(double* q, const double* u) = 0;
};

struct Info {
  std::string name;
  int rank = 0, width = 0;     // cells on either side of a face
  int nq = 0, nu = 0;          // components of complete and conservative states
  int momentum = -1, nmomentum = 0;
  bool simd = true;            // has a vectorised flux
  double tolerance = 1e-10;    // between scalar and vectorised
  bool same_scheme = true;     // whether scalar and vectorised flux are the same scheme
  bool iterative = false;      // lanes may influence each other within the tolerance
  int dirs = 1;                // directions it works in
  bool has_complete = true;
  std::unique_ptr<Kernel> (*make)() = nullptr;
};

std::vector<Info>& registry();
struct Register {
  explicit Register(Info i) { registry().push_back(std::move(i)); }
};

/// HyperbolicPatchIntegrator on rank space dimensions.
void update(int policy, int rank, Field& next, const Field& prev, const Field& flux, const Box& cells, double dt, double dx,
            int dir);

} // namespace omp
