#include "fub/equations/Advection.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "program.hpp"

namespace amr {
namespace {
using Gas = fub::PerfectGas<2>;
struct Initial {
  Config c;
  Gas eq;
  void InitializeData(fub::amrex::PatchLevel& level, const Grid& grid, int l, fub::Duration) const {
    const ::amrex::Geometry& geom = grid.GetPatchHierarchy().GetGeometry(l);
    const Profile profile(c);
    fub::amrex::ForEachFab(level.data, [&](const ::amrex::MFIter& mfi) {
      auto states = fub::amrex::MakeView<fub::Complete<Gas>>(level.data[mfi], eq, mfi.tilebox());
      fub::ForEachIndex(fub::Box<0>(states), [&](std::ptrdiff_t i, std::ptrdiff_t j) {
        double x[2];
        geom.CellCenter({int(i), int(j)}, x);
        const double v = profile(x[0], x[1]);
        fub::Array<double, 2, 1> u;
        u << c.velocity[0], c.velocity[1];
        fub::Complete<Gas> state = eq.CompleteFromPrim(1.0 + std::max(-0.5, v), u, 1.0 + std::max(-0.5, 0.7 * v));
        fub::Store(states, state, {i, j});
      });
    });
  }
};
} // namespace
void program_gas(const Config& c, const Hooks& h) {
  using Complete = fub::Complete<Gas>;
  Gas eq{};
  fub::amrex::GradientDetector gradient{eq, std::pair{&Complete::density, c.tol}, std::pair{&Complete::pressure, c.tol}};
  using HLLE = fub::HllMethod<Gas, fub::EinfeldtSignalVelocities<Gas>>;
  using HLLEM = fub::perfect_gas::HllemMethod<Gas>;
  auto go = [&](auto tag) {
    if (c.flux) {
      run_program(c, h, eq, tag, fub::MusclHancockMethod<Gas, HLLEM, fub::VanLeer>{eq}, gradient, Initial{c, eq});
    } else {
      run_program(c, h, eq, tag, HLLE{eq}, gradient, Initial{c, eq});
    }
  };
  if (c.simd) {
    go(fub::execution::openmp_simd);
  } else {
    go(fub::execution::seq);
  }
}
fub::amrex::DataDescription description(const Config& c) {
  return c.equation ? fub::amrex::MakeDataDescription(Gas{}) : fub::amrex::MakeDataDescription(fub::Advection2d{{1.0, 1.0}});
}
void program(const Config& c, const Hooks& h) {
  if (c.equation) {
    program_gas(c, h);
  } else {
    program_advection(c, h);
  }
}
} // namespace amr
