#pragma once
#include "omp/kernel_impl.hpp"

#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/ideal_gas_mix/HlleMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"

namespace omp {
template <int Rank> struct IdealTraits {
  static constexpr int kMomentum = 1, kMomenta = Rank;
  static fub::IdealGasMix<Rank> make() {
    static const fub::Burke2012 mechanism;
    return fub::IdealGasMix<Rank>(fub::FlameMasterReactor(mechanism));
  }
  static void state(fub::IdealGasMix<Rank>& eq, fub::Complete<fub::IdealGasMix<Rank>>& q, const std::vector<double>& x,
                    double r) {
    auto& reactor = eq.GetReactor();
    std::vector<double> y(static_cast<std::size_t>(reactor.GetNSpecies()));
    for (std::size_t s = 0; s < y.size(); ++s) {
      y[s] = 0.5 + 0.49 * r * x[10 + s];
    }
    reactor.SetMassFractions(y);
    reactor.SetTemperature(1000 * (1 + 0.6 * r * x[3]));
    reactor.SetPressure(1e5 * (1 + 0.9 * r * x[4]));
    Eigen::Array<double, Rank, 1> u;
    for (int d = 0; d < Rank; ++d) {
      u[d] = 30 + 400 * r * x[static_cast<std::size_t>(d)];
    }
    eq.CompleteFromReactor(q, u);
  }
};
} // namespace omp
