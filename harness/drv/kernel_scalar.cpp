#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "kernel_impl.hpp"

#include "sim.hpp"

std::unique_ptr<Kernel> make_kernel_burgers(int method, bool simd) {
  fub::Burgers1d eq{};
  if (method == MethodMuscl) {
    return make_tagged<fub::FluxMethod<fub::MusclHancock<fub::Burgers1d>>, false>(simd, eq);
  }
  return make_tagged<fub::FluxMethod<fub::Godunov<fub::Burgers1d>>, false>(simd, eq);
}

std::unique_ptr<Kernel> make_kernel_advection(int method, bool simd, double u, double v) {
  fub::Advection2d eq{{u, v}};
  if (method == MethodMuscl) {
    return make_tagged<fub::FluxMethod<fub::MusclHancock<fub::Advection2d>>, false>(simd, eq);
  }
  return make_tagged<fub::FluxMethod<fub::Godunov<fub::Advection2d>>, false>(simd, eq);
}

EquationInfo equation_info(int eq) {
  switch (eq) {
  case EqBurgers:
    return {1, 1, 1, false};
  case EqAdvection:
    return {2, 1, 1, false};
  case EqGas1:
    return {1, 5, 3, true};
  case EqGas2:
    return {2, 6, 4, true};
  default:
    return {3, 7, 5, true};
  }
}

namespace {
double unit(uint64_t salt, int i) {
  const uint64_t x[2] = {salt, static_cast<uint64_t>(i)};
  return static_cast<double>(sim::hash_bytes(x, sizeof x) >> 11) * 0x1p-53;
}
} // namespace

std::unique_ptr<Kernel> make_kernel(int eq, int method, bool simd, uint64_t salt) {
  switch (eq) {
  case EqBurgers:
    return make_kernel_burgers(method, simd);
  case EqAdvection:
    return make_kernel_advection(method, simd, 2.0 * unit(salt, 101) - 1.0,
                                 0.2 + unit(salt, 102));
  case EqGas1:
    return make_kernel_gas1(method, simd);
  case EqGas2:
    return make_kernel_gas2(method, simd);
  default:
    return make_kernel_gas3(method, simd);
  }
}

void initial_values(int eq, uint64_t salt, const double* x, double* q) {
  const EquationInfo e = equation_info(eq);
  const double pi2 = 6.283185307179586;
  auto wave = [&](int id) {
    double s = 0.0;
    for (int d = 0; d < e.rank; ++d) {
      s += std::sin(pi2 * ((1 + static_cast<int>(unit(salt, 10 * id + d) * 2)) * x[d] +
                           unit(salt, 10 * id + 5 + d)));
    }
    return s / e.rank;
  };
  // A jump as well, so that shocks and contact waves occur.
  double jump = 0.0;
  for (int d = 0; d < e.rank; ++d) {
    jump += std::abs(x[d] - 0.5) < 0.2 ? 1.0 : 0.0;
  }
  jump = jump >= e.rank ? unit(salt, 77) : 0.0;
  if (!e.gas) {
    q[0] = (eq == EqBurgers ? 0.4 : 1.5) + 0.6 * wave(1) + jump;
    return;
  }
  const double rho = 1.0 + 0.3 * wave(1) + 0.5 * jump;
  const double p = 1.0 + 0.3 * wave(2) + 0.5 * jump;
  double ke = 0.0;
  q[0] = rho;
  for (int d = 0; d < e.rank; ++d) {
    const double u = 0.5 * wave(3 + d);
    q[1 + d] = rho * u;
    ke += 0.5 * rho * u * u;
  }
  q[1 + e.rank] = p / 0.4 + ke;
  q[2 + e.rank] = p;
  q[3 + e.rank] = std::sqrt(1.4 * p / rho);
}

double dependent_error(int eq, const double* q) {
  const EquationInfo e = equation_info(eq);
  if (!e.gas) {
    return 0.0;
  }
  double ke = 0.0;
  for (int d = 0; d < e.rank; ++d) {
    ke += 0.5 * q[1 + d] * q[1 + d] / q[0];
  }
  const double p = 0.4 * (q[1 + e.rank] - ke);
  const double c = std::sqrt(1.4 * p / q[0]);
  return std::max(std::abs(p - q[2 + e.rank]), std::abs(c - q[3 + e.rank]));
}
