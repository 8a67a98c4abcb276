#pragma once
#include "omp/kernel_impl.hpp"

#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"

namespace omp {
template <int Rank> struct GasTraits {
  static constexpr int kMomentum = 1, kMomenta = Rank;
  static fub::PerfectGas<Rank> make() { return {}; }
  static void state(fub::PerfectGas<Rank>& eq, fub::Complete<fub::PerfectGas<Rank>>& q, const std::vector<double>& x,
                    double r) {
    fub::Array<double, Rank, 1> u;
    for (int d = 0; d < Rank; ++d) {
      u[d] = 30 + 400 * r * x[static_cast<std::size_t>(d)];
    }
    q = eq.CompleteFromPrim(1.2 * (1 + 0.8 * r * x[3]), u, 1e5 * (1 + 0.9 * r * x[4]));
  }
};

template <int Rank> struct MixTraits {
  static constexpr int kMomentum = 1, kMomenta = Rank;
  static fub::PerfectGasMix<Rank> make() {
    fub::PerfectGasMix<Rank> eq(fub::PerfectGasConstants(), 3, 2);
    return eq;
  }
  static void state(fub::PerfectGasMix<Rank>& eq, fub::Complete<fub::PerfectGasMix<Rank>>& q, const std::vector<double>& x,
                    double r) {
    fub::Array<double, Rank, 1> u;
    for (int d = 0; d < Rank; ++d) {
      u[d] = 30 + 400 * r * x[static_cast<std::size_t>(d)];
    }
    fub::Array<double, -1, 1> y(3), z(2);
    for (int s = 0; s < 3; ++s) {
      y[s] = 0.3 + 0.3 * r * x[static_cast<std::size_t>(5 + s)];
    }
    for (int s = 0; s < 2; ++s) {
      z[s] = 2 * r * x[static_cast<std::size_t>(8 + s)];
    }
    q = eq.CompleteFromPrim(1.2 * (1 + 0.8 * r * x[3]), u, 1e5 * (1 + 0.9 * r * x[4]), y, z);
  }
};

template <typename Eq, template <typename, typename> class Gradient, typename Limiter, template <typename> class Rec,
          typename Base>
using Hancock2 =
    fub::FluxMethod<fub::MusclHancock2<Eq, Gradient<Eq, fub::CentralDifferenceGradient<Limiter>>, Rec<Eq>, Base>>;
} // namespace omp
