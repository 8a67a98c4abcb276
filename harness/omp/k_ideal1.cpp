#include "omp/ideal.hpp"

// The MUSCL schemes limit with minmod face by face, but with van Leer vectorised.
namespace omp {
namespace {
using Mix = fub::IdealGasMix<1>;
using T = IdealTraits<1>;
using Hll = fub::HllMethod<Mix, fub::EinfeldtSignalVelocities<Mix>>;

Register r1(KernelT<Hll, T, true>::info("ideal 1, HLL", 1e-6, true));
Register r2(KernelT<fub::ideal_gas::MusclHancockPrimMethod<1>, T, true>::info("ideal 1, MUSCL primitive", 1e-5, true, false));
Register r3(KernelT<fub::FluxMethod<fub::ideal_gas::MusclHancockCharacteristic<1>>, T, true>::info(
    "ideal 1, MUSCL characteristic", 1e-5, true, false));
} // namespace
} // namespace omp
