#include "omp/kernel.hpp"

#include "fub/HyperbolicPatchIntegrator.hpp"

namespace omp {
namespace {
template <int R, typename T, typename F> fub::StridedDataView<T, R + 1> strided(F& a, const Box& b) {
  constexpr auto sR = static_cast<std::size_t>(R);
  std::array<std::ptrdiff_t, sR + 1> extent{}, origin{};
  fub::IndexBox<R + 1> box{};
  for (std::size_t d = 0; d < sR; ++d) {
    extent[d] = a.box.hi[d] - a.box.lo[d];
    origin[d] = a.box.lo[d];
    box.lower[d] = b.lo[d];
    box.upper[d] = b.hi[d];
  }
  extent[sR] = a.comps;
  box.upper[sR] = a.comps;
  fub::PatchDataView<T, R + 1> v(fub::mdspan<T, sR + 1>(a.component(0), extent), origin);
  return v.Subview(box);
}

template <int R, typename Tag>
void run(Tag tag, Field& next, const Field& prev, const Field& flux, const Box& cells, double dt, double dx, int dir) {
  const auto n = strided<R, double>(next, cells);
  const auto p = strided<R, const double>(prev, cells);
  const auto f = strided<R, const double>(flux, flux.box);
  fub::HyperbolicPatchIntegrator<Tag>(tag).UpdateConservatively(n, p, f, fub::Duration(dt), dx,
                                                                static_cast<fub::Direction>(dir));
}

template <typename Tag>
void run_any(Tag tag, int rank, Field& next, const Field& prev, const Field& flux, const Box& cells, double dt, double dx,
             int dir) {
  if (rank == 1) {
    run<1>(tag, next, prev, flux, cells, dt, dx, dir);
  } else if (rank == 2) {
    run<2>(tag, next, prev, flux, cells, dt, dx, dir);
  } else {
    run<3>(tag, next, prev, flux, cells, dt, dx, dir);
  }
}
} // namespace

void update(int policy, int rank, Field& next, const Field& prev, const Field& flux, const Box& cells, double dt, double dx,
            int dir) {
  switch (policy) {
  case kSimd: run_any(fub::execution::simd, rank, next, prev, flux, cells, dt, dx, dir); break;
  case kOpenMp: run_any(fub::execution::openmp, rank, next, prev, flux, cells, dt, dx, dir); break;
  case kOpenMpSimd: run_any(fub::execution::openmp_simd, rank, next, prev, flux, cells, dt, dx, dir); break;
  default: run_any(fub::execution::seq, rank, next, prev, flux, cells, dt, dx, dir);
  }
}

std::vector<Info>& registry() {
  static std::vector<Info> r;
  return r;
}
} // namespace omp
