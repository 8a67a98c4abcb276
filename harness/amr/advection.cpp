#include "fub/equations/Advection.hpp"
#include "program.hpp"

namespace amr {
namespace {
struct Initial {
  Config c;
  void InitializeData(fub::amrex::PatchLevel& level, const Grid& grid, int l, fub::Duration) const {
    const ::amrex::Geometry& geom = grid.GetPatchHierarchy().GetGeometry(l);
    const Profile profile(c);
    fub::amrex::ForEachFab(level.data, [&](const ::amrex::MFIter& mfi) {
      fub::amrex::ForEachIndex(mfi.tilebox(), [&](auto... is) {
        const ::amrex::IntVect iv{int(is)...};
        double x[2];
        geom.CellCenter(iv, x);
        level.data[mfi](iv, 0) = (c.data % 5 ? 1.0 : 0.0) + profile(x[0], x[1]);
      });
    });
  }
};
} // namespace
void program_advection(const Config& c, const Hooks& h) {
  using Complete = fub::Complete<fub::Advection2d>;
  fub::Advection2d eq{{c.velocity[0], c.velocity[1]}};
  fub::amrex::GradientDetector gradient{eq, std::pair{&Complete::mass, c.tol}};
  auto go = [&](auto tag) {
    if (c.flux) {
      run_program(c, h, eq, tag, fub::MusclHancockMethod{eq}, gradient, Initial{c});
    } else {
      run_program(c, h, eq, tag, fub::GodunovMethod{eq}, gradient, Initial{c});
    }
  };
  if (c.simd) {
    go(fub::execution::openmp_simd);
  } else {
    go(fub::execution::seq);
  }
}
} // namespace amr
