// Stands in front of the repository's header of this name, which needs the
// embedded boundaries of AMReX. The control of a single tube only names these
// types.
#ifndef FUB_AMREX_MULTI_BLOCK_INTEGRATOR_CONTEXT2_HPP
#define FUB_AMREX_MULTI_BLOCK_INTEGRATOR_CONTEXT2_HPP

#include "fub/AMReX/GriddingAlgorithm.hpp"
#include "fub/AMReX/IntegratorContext.hpp"
#include "fub/AMReX/ForEachFab.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "fub/core/function_ref.hpp"

#include <boost/filesystem.hpp>
#include <map>
#include <numeric>
#include <range/v3/view/transform.hpp>
#include <range/v3/view/zip.hpp>

namespace fub::amrex {
namespace cutcell {
using IntegratorContext = ::fub::amrex::IntegratorContext;
}
class MultiBlockGriddingAlgorithm2 {
public:
  Duration GetTimePoint() const { return {}; }
  std::ptrdiff_t GetCycles() const { return 0; }
};
class MultiBlockIntegratorContext2 {
public:
  span<IntegratorContext> Tubes() { return {}; }
  span<cutcell::IntegratorContext> Plena() { return {}; }
};
} // namespace fub::amrex
#endif
