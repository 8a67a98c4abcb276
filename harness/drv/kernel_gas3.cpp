#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "kernel_impl.hpp"
std::unique_ptr<Kernel> make_kernel_gas3(int, bool simd) {
  fub::PerfectGas<3> eq{};
  return make_tagged<fub::perfect_gas::HllemMethod<fub::PerfectGas<3>>, true>(simd, eq);
}
