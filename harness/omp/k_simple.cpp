#include "omp/kernel_impl.hpp"

#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"

namespace omp {
namespace {
struct AdvectionTraits {
  static constexpr int kMomentum = -1, kMomenta = 0;
  static fub::Advection2d make() { return fub::Advection2d{{0.75, -1.25}}; }
  static void state(fub::Advection2d&, fub::Complete<fub::Advection2d>& q, const std::vector<double>& x, double r) {
    q.mass = 1 + r * x[0];
  }
};
struct BurgersTraits {
  static constexpr int kMomentum = -1, kMomenta = 0;
  static fub::Burgers1d make() { return {}; }
  static void state(fub::Burgers1d&, fub::Complete<fub::Burgers1d>& q, const std::vector<double>& x, double r) {
    q.u = 0.5 + 2 * r * x[0];
  }
};
struct WaterTraits {
  static constexpr int kMomentum = 1, kMomenta = 2;
  static fub::ShallowWater make() { return {}; }
  static void state(fub::ShallowWater&, fub::Complete<fub::ShallowWater>& q, const std::vector<double>& x, double r) {
    q.height = 1 + 0.5 * r * x[0];
    for (int d = 0; d < 2; ++d) {
      q.momentum[d] = q.height * (0.5 + 2 * r * x[static_cast<std::size_t>(1 + d)]);
    }
  }
};
using fub::FluxMethod;
using fub::Godunov;
using fub::MusclHancock;
using WaterHll = fub::HllMethod<fub::ShallowWater, fub::ShallowWaterSignalVelocities>;

Register r1(KernelT<FluxMethod<Godunov<fub::Advection2d>>, AdvectionTraits, true>::info("advection, Godunov"));
Register r2(KernelT<FluxMethod<MusclHancock<fub::Advection2d>>, AdvectionTraits, true>::info("advection, MUSCL-Hancock"));
Register r3(KernelT<FluxMethod<Godunov<fub::Burgers1d>>, BurgersTraits, true>::info("Burgers, Godunov"));
Register r4(KernelT<FluxMethod<MusclHancock<fub::Burgers1d>>, BurgersTraits, true>::info("Burgers, MUSCL-Hancock"));
Register r5(KernelT<FluxMethod<Godunov<fub::ShallowWater>>, WaterTraits, true>::info("shallow water, Godunov", 1e-6, true));
Register r6(KernelT<WaterHll, WaterTraits, true>::info("shallow water, HLL"));
Register r7(KernelT<FluxMethod<MusclHancock<fub::ShallowWater>>, WaterTraits, true>::info("shallow water, MUSCL-Hancock", 1e-6,
                                                                                        true));
Register r8(
    KernelT<FluxMethod<MusclHancock<fub::ShallowWater, WaterHll>>, WaterTraits, true>::info("shallow water, MUSCL-Hancock HLL"));
} // namespace
} // namespace omp
