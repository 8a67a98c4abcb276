#include "omp/gas.hpp"

namespace omp {
namespace {
using Gas = fub::PerfectGas<3>;
using T = GasTraits<3>;
using Hll = fub::HllMethod<Gas, fub::EinfeldtSignalVelocities<Gas>>;
using HllemL = fub::perfect_gas::Hllem<Gas, true>;
using HllemN = fub::perfect_gas::Hllem<Gas, false>;
template <typename L> using Hancock = fub::FluxMethod<fub::MusclHancock<Gas, Hll, L>>;

Register r1(KernelT<fub::GodunovMethod<Gas>, T, true>::info("gas 3, Godunov", 1e-6, true));
Register r2(KernelT<Hll, T, true>::info("gas 3, HLL"));
Register r3(KernelT<fub::FluxMethod<HllemL>, T, true>::info("gas 3, HLLEM"));
Register r4(KernelT<fub::FluxMethod<HllemN>, T, true>::info("gas 3, HLLEM (2)"));
Register r5(KernelT<fub::FluxMethod<fub::perfect_gas::MusclHancockPrim<3>>, T, true>::info("gas 3, MUSCL primitive", 1e-6, true));
Register r6(KernelT<fub::FluxMethod<fub::perfect_gas::MusclHancockCharacteristic<3>>, T, true>::info(
    "gas 3, MUSCL characteristic", 1e-6, true));
Register r10(KernelT<Hancock2<Gas, fub::PrimitiveGradient, fub::VanLeerLimiter, fub::PrimitiveReconstruction, HllemL>, T,
                     true>::info("gas 3, primitive/van Leer/HLLEM"));
Register r11(KernelT<Hancock2<Gas, fub::ConservativeGradient, fub::MinModLimiter, fub::ConservativeReconstruction, Hll>, T,
                     true>::info("gas 3, conservative/minmod/HLL"));
Register r12(KernelT<Hancock2<Gas, fub::CharacteristicsGradient, fub::MinModLimiter, fub::CharacteristicsReconstruction, HllemN>, T,
                     true>::info("gas 3, characteristics/minmod/HLLEM"));
Register r13(KernelT<Hancock2<Gas, fub::PrimitiveGradient, fub::NoLimiter2, fub::PrimitiveReconstruction, fub::GodunovMethod<Gas>>, T,
                     true>::info("gas 3, primitive/central/Godunov", 1e-6, true));
Register r14(KernelT<Hancock2<Gas, fub::CharacteristicsGradient, fub::UpwindLimiter, fub::CharacteristicsReconstruction, HllemL>, T,
                     true>::info("gas 3, characteristics/upwind/HLLEM"));
} // namespace
} // namespace omp
