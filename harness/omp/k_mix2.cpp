#include "omp/gas.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"

namespace omp {
namespace {
using Mix = fub::PerfectGasMix<2>;
using T = MixTraits<2>;
using Hll = fub::HllMethod<Mix, fub::EinfeldtSignalVelocities<Mix>>;
using HllemL = fub::perfect_gas::Hllem<Mix, true>;
using HllemN = fub::perfect_gas::Hllem<Mix, false>;

Register r2(KernelT<Hll, T, true>::info("mix 2, HLL"));
Register r3(KernelT<fub::FluxMethod<HllemL>, T, true>::info("mix 2, HLLEM"));
Register r4(KernelT<fub::FluxMethod<HllemN>, T, true>::info("mix 2, HLLEM (2)"));
Register r10(KernelT<Hancock2<Mix, fub::PrimitiveGradient, fub::VanLeerLimiter, fub::PrimitiveReconstruction, HllemL>, T,
                     true>::info("mix 2, primitive/van Leer/HLLEM"));
Register r12(KernelT<Hancock2<Mix, fub::CharacteristicsGradient, fub::MinModLimiter, fub::CharacteristicsReconstruction, HllemN>, T,
                     true>::info("mix 2, characteristics/minmod/HLLEM"));
Register r14(KernelT<Hancock2<Mix, fub::ConservativeGradient, fub::UpwindLimiter, fub::ConservativeReconstruction, HllemL>, T,
                     true>::info("mix 2, conservative/upwind/HLLEM"));
} // namespace
} // namespace omp
