#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockMethod.hpp"
#include "kernel_impl.hpp"
std::unique_ptr<Kernel> make_kernel_gas1(int method, bool simd) {
  fub::PerfectGas<1> eq{};
  if (method == MethodMuscl) {
    return make_tagged<fub::FluxMethod<fub::MusclHancock<fub::PerfectGas<1>>>, true>(simd, eq);
  }
  return make_tagged<fub::perfect_gas::HllemMethod<fub::PerfectGas<1>>, true>(simd, eq);
}
