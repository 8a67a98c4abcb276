// Patch storage and the kernels of the repository behind a virtual interface.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <vector>

struct IBox {
  std::array<int, 3> lo{0, 0, 0};
  std::array<int, 3> hi{-1, -1, -1}; // inclusive
  bool empty() const {
    return hi[0] < lo[0] || hi[1] < lo[1] || hi[2] < lo[2];
  }
  int len(int d) const { return hi[static_cast<std::size_t>(d)] - lo[static_cast<std::size_t>(d)] + 1; }
  std::size_t size() const {
    return empty() ? 0
                   : static_cast<std::size_t>(len(0)) *
                         static_cast<std::size_t>(len(1)) *
                         static_cast<std::size_t>(len(2));
  }
  bool contains(int i, int j, int k) const {
    return lo[0] <= i && i <= hi[0] && lo[1] <= j && j <= hi[1] && lo[2] <= k &&
           k <= hi[2];
  }
  bool operator==(const IBox& o) const { return lo == o.lo && hi == o.hi; }
};

inline IBox intersect(const IBox& a, const IBox& b) {
  IBox r;
  for (std::size_t d = 0; d < 3; ++d) {
    r.lo[d] = std::max(a.lo[d], b.lo[d]);
    r.hi[d] = std::min(a.hi[d], b.hi[d]);
  }
  return r;
}

/// Cells (or faces) of a box times components, x fastest, component slowest.
struct Fab {
  IBox box;
  int ncomp{0};
  std::vector<double> v;
  Fab() = default;
  Fab(const IBox& b, int n, double x = 0.0)
      : box(b), ncomp(n), v(b.size() * static_cast<std::size_t>(n), x) {}
  std::size_t offset(int i, int j, int k) const {
    return static_cast<std::size_t>(i - box.lo[0]) +
           static_cast<std::size_t>(box.len(0)) *
               (static_cast<std::size_t>(j - box.lo[1]) +
                static_cast<std::size_t>(box.len(1)) *
                    static_cast<std::size_t>(k - box.lo[2]));
  }
  double& at(int i, int j, int k, int c) {
    return v[offset(i, j, k) + static_cast<std::size_t>(c) * box.size()];
  }
  double at(int i, int j, int k, int c) const {
    return v[offset(i, j, k) + static_cast<std::size_t>(c) * box.size()];
  }
};

template <typename F> void for_each_cell(const IBox& b, F f) {
  for (int k = b.lo[2]; k <= b.hi[2]; ++k)
    for (int j = b.lo[1]; j <= b.hi[1]; ++j)
      for (int i = b.lo[0]; i <= b.hi[0]; ++i) f(i, j, k);
}

struct Kernel {
  virtual ~Kernel() = default;
  virtual std::unique_ptr<Kernel> clone() const = 0;
  virtual int width() const = 0;
  virtual double stable_dt(const Fab& states, const IBox& cells, double dx,
                           int dir) = 0;
  virtual void fluxes(Fab& flux, const IBox& faces, const Fab& states,
                      double dt, double dx, int dir) = 0;
  virtual void update(Fab& states, const Fab& flux, const IBox& cells,
                      double dt, double dx, int dir) = 0;
  virtual void complete(Fab& states, const IBox& cells) = 0;
  virtual void reflect(Fab& states, const IBox& ghost, int dir, int side) = 0;
};

/// What does not depend on the flux method.
struct EquationInfo {
  int rank;
  int ncomp;
  int ncons;
  bool gas;
};
EquationInfo equation_info(int eq);
/// Initial conserved (and complete) values; x in [0,1)^rank.
void initial_values(int eq, uint64_t salt, const double* x, double* comps);
/// Largest deviation of the dependent variables from the conserved ones.
double dependent_error(int eq, const double* comps);

enum { EqBurgers, EqAdvection, EqGas1, EqGas2, EqGas3, EqCount };
enum { MethodFirstOrder, MethodMuscl };

std::unique_ptr<Kernel> make_kernel(int eq, int method, bool simd, uint64_t salt);
std::unique_ptr<Kernel> make_kernel_burgers(int method, bool simd);
std::unique_ptr<Kernel> make_kernel_advection(int method, bool simd, double u, double v);
std::unique_ptr<Kernel> make_kernel_gas1(int method, bool simd);
std::unique_ptr<Kernel> make_kernel_gas2(int method, bool simd);
std::unique_ptr<Kernel> make_kernel_gas3(int method, bool simd);
