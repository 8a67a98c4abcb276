#include "omp/ideal.hpp"

// The MUSCL schemes limit with minmod face by face, but with van Leer vectorised.
namespace omp {
namespace {
using Mix = fub::IdealGasMix<2>;
using T = IdealTraits<2>;
using Hll = fub::HllMethod<Mix, fub::EinfeldtSignalVelocities<Mix>>;

Register r1(KernelT<Hll, T, true>::info("ideal 2, HLL", 1e-6, true));
Register r2(KernelT<fub::ideal_gas::MusclHancockPrimMethod<2>, T, true>::info("ideal 2, MUSCL primitive", 1e-5, true, false));
Register r3(KernelT<fub::FluxMethod<fub::ideal_gas::MusclHancockCharacteristic<2>>, T, true>::info(
    "ideal 2, MUSCL characteristic", 1e-5, true, false));
} // namespace
} // namespace omp
