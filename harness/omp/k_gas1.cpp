#include "omp/gas.hpp"

namespace omp {
namespace {
using Gas = fub::PerfectGas<1>;
using T = GasTraits<1>;
using Hll = fub::HllMethod<Gas, fub::EinfeldtSignalVelocities<Gas>>;
using HllemL = fub::perfect_gas::Hllem<Gas, true>;
using HllemN = fub::perfect_gas::Hllem<Gas, false>;
template <typename L> using Hancock = fub::FluxMethod<fub::MusclHancock<Gas, Hll, L>>;

Register r1(KernelT<fub::GodunovMethod<Gas>, T, true>::info("gas 1, Godunov", 1e-6, true));
Register r2(KernelT<Hll, T, true>::info("gas 1, HLL"));
Register r3(KernelT<fub::FluxMethod<HllemL>, T, true>::info("gas 1, HLLEM"));
Register r4(KernelT<fub::FluxMethod<HllemN>, T, true>::info("gas 1, HLLEM (2)"));
Register r5(KernelT<fub::FluxMethod<fub::perfect_gas::MusclHancockPrim<1>>, T, true>::info("gas 1, MUSCL primitive", 1e-6, true));
Register r6(KernelT<fub::FluxMethod<fub::perfect_gas::MusclHancockCharacteristic<1>>, T, true>::info(
    "gas 1, MUSCL characteristic", 1e-6, true));
Register r7(KernelT<fub::MusclHancockMethod<Gas>, T, false>::info("gas 1, MUSCL-Hancock"));
Register r10(KernelT<Hancock2<Gas, fub::PrimitiveGradient, fub::VanLeerLimiter, fub::PrimitiveReconstruction, HllemL>, T,
                     true>::info("gas 1, primitive/van Leer/HLLEM"));
Register r11(KernelT<Hancock2<Gas, fub::ConservativeGradient, fub::MinModLimiter, fub::ConservativeReconstruction, Hll>, T,
                     true>::info("gas 1, conservative/minmod/HLL"));
Register r12(KernelT<Hancock2<Gas, fub::CharacteristicsGradient, fub::MinModLimiter, fub::CharacteristicsReconstruction, HllemN>, T,
                     true>::info("gas 1, characteristics/minmod/HLLEM"));
Register r13(KernelT<Hancock2<Gas, fub::PrimitiveGradient, fub::NoLimiter2, fub::PrimitiveReconstruction, fub::GodunovMethod<Gas>>, T,
                     true>::info("gas 1, primitive/central/Godunov", 1e-6, true));
Register r14(KernelT<Hancock2<Gas, fub::CharacteristicsGradient, fub::UpwindLimiter, fub::CharacteristicsReconstruction, HllemL>, T,
                     true>::info("gas 1, characteristics/upwind/HLLEM"));
} // namespace
} // namespace omp
namespace omp {
namespace {
Register s1(KernelT<fub::FluxMethod<fub::perfect_gas::ThirdOrderRungeKutta<1>>, T, true>::info("gas 1, third order"));
Register s2(KernelT<Hancock<fub::VanLeer>, T, true>::info("gas 1, MUSCL-Hancock van Leer"));
} // namespace
} // namespace omp
