#pragma once
#include "kernels.hpp"

#include "fub/CompleteFromCons.hpp"
#include "fub/Equation.hpp"
#include "fub/Execution.hpp"
#include "fub/ForEach.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"

// The views are built as include/fub/AMReX/ViewFArrayBox.hpp builds them.
template <typename State> struct MakeViewImpl {
  using Equation = typename State::Equation;
  using ValueType = typename State::ValueType;
  static constexpr int Rank = Equation::Rank();
  static constexpr std::size_t sRank = static_cast<std::size_t>(Rank);

  template <typename F> State operator()(F& fab, const Equation& equation) {
    const auto depths = ::fub::Depths(equation, fub::Type<State>{});
    int counter = 0;
    std::array<std::ptrdiff_t, sRank> len{}, org{};
    for (std::size_t d = 0; d < sRank; ++d) {
      len[d] = fab.box.len(static_cast<int>(d));
      org[d] = fab.box.lo[d];
    }
    auto ptr = [&](int c) {
      return fab.v.data() + static_cast<std::size_t>(c) * fab.box.size();
    };
    auto transform = fub::overloaded{
        [&](int n_comps) {
          fub::Index<Rank + 1> e{};
          fub::Index<Rank + 1> o{};
          for (std::size_t d = 0; d < sRank; ++d) {
            e[d] = len[d];
            o[d] = org[d];
          }
          e[sRank] = n_comps;
          fub::mdspan<ValueType, sRank + 1> mds(ptr(counter), e);
          counter += n_comps;
          return fub::PatchDataView<ValueType, Rank + 1>(mds, o);
        },
        [&](const fub::ScalarDepth&) {
          fub::Index<Rank> e{};
          fub::Index<Rank> o{};
          for (std::size_t d = 0; d < sRank; ++d) {
            e[d] = len[d];
            o[d] = org[d];
          }
          fub::mdspan<ValueType, sRank> mds(ptr(counter), e);
          counter += 1;
          return fub::PatchDataView<ValueType, Rank>(mds, o);
        }};
    State views{};
    fub::ForEachVariable(
        [&](auto& pdv, const auto& depth) { pdv = transform(depth); }, views,
        depths);
    return views;
  }
};

template <int Rank> fub::IndexBox<Rank> index_box(const IBox& b) {
  fub::IndexBox<Rank> r{};
  for (std::size_t d = 0; d < static_cast<std::size_t>(Rank); ++d) {
    r.lower[d] = b.lo[d];
    r.upper[d] = b.hi[d] + 1;
  }
  return r;
}

template <typename State, typename F, typename Eq>
auto view_of(F& fab, const Eq& eq, const IBox& b) {
  return fub::Subview(MakeViewImpl<fub::BasicView<State>>{}(fab, eq),
                      index_box<Eq::Rank()>(b));
}

template <typename Tag, typename FM, bool Reflects> struct KernelImpl : Kernel {
  using Equation = std::decay_t<decltype(std::declval<FM&>().GetEquation())>;
  static constexpr int Rank = Equation::Rank();

  KernelImpl(const Equation& eq) : equation(eq), fm(eq), rec{eq} {}

  std::unique_ptr<Kernel> clone() const override {
    return std::make_unique<KernelImpl>(*this);
  }
  int width() const override { return fm.GetStencilWidth(); }

  double stable_dt(const Fab& states, const IBox& cells, double dx,
                   int dir) override {
    fub::View<const fub::Complete<Equation>> v =
        view_of<const fub::Complete<Equation>>(states, equation, cells);
    return fm.ComputeStableDt(Tag(), v, dx, static_cast<fub::Direction>(dir));
  }
  void fluxes(Fab& flux, const IBox& faces, const Fab& states, double dt,
              double dx, int dir) override {
    const int w = width();
    IBox cells = faces;
    cells.lo[static_cast<std::size_t>(dir)] -= w;
    cells.hi[static_cast<std::size_t>(dir)] += w - 1;
    fub::View<const fub::Complete<Equation>> v =
        view_of<const fub::Complete<Equation>>(states, equation, cells);
    fub::View<fub::Conservative<Equation>> f =
        view_of<fub::Conservative<Equation>>(flux, equation, faces);
    fm.ComputeNumericFluxes(Tag(), f, v, fub::Duration(dt), dx,
                            static_cast<fub::Direction>(dir));
  }
  template <typename T, typename F>
  static auto strided(F& fab, const IBox& b, int ncomp) {
    constexpr std::size_t R = static_cast<std::size_t>(Rank);
    fub::Index<Rank + 1> e{};
    fub::Index<Rank + 1> o{};
    fub::IndexBox<Rank + 1> box{};
    for (std::size_t d = 0; d < R; ++d) {
      e[d] = fab.box.len(static_cast<int>(d));
      o[d] = fab.box.lo[d];
      box.lower[d] = b.lo[d];
      box.upper[d] = b.hi[d] + 1;
    }
    e[R] = fab.ncomp;
    box.upper[R] = ncomp;
    fub::mdspan<T, R + 1> mds(fab.v.data(), e);
    return fub::PatchDataView<T, Rank + 1>(mds, o).Subview(box);
  }
  void update(Fab& states, const Fab& flux, const IBox& cells, double dt,
              double dx, int dir) override {
    IBox faces = cells;
    faces.hi[static_cast<std::size_t>(dir)] += 1;
    auto next = strided<double>(states, cells, flux.ncomp);
    const Fab& cstates = states;
    auto prev = strided<const double>(cstates, cells, flux.ncomp);
    auto f = strided<const double>(flux, faces, flux.ncomp);
    fub::HyperbolicPatchIntegrator<Tag>::UpdateConservatively(
        next, prev, f, fub::Duration(dt), dx, static_cast<fub::Direction>(dir));
  }
  void complete(Fab& states, const IBox& cells) override {
    fub::View<fub::Complete<Equation>> complete =
        view_of<fub::Complete<Equation>>(states, equation, cells);
    const Fab& cstates = states;
    fub::View<const fub::Conservative<Equation>> cons =
        view_of<const fub::Conservative<Equation>>(cstates, equation, cells);
    rec.CompleteFromCons(Tag(), complete, cons);
  }
  void reflect(Fab& states, const IBox& ghost, int dir, int side) override {
    if constexpr (Reflects) {
      fub::ReflectiveBoundary<Equation> bc(equation);
      fub::View<fub::Complete<Equation>> v =
          view_of<fub::Complete<Equation>>(states, equation, states.box);
      bc.FillBoundary(v, index_box<Rank>(ghost),
                      static_cast<fub::Direction>(dir), side);
    } else {
      (void)states;
      (void)ghost;
      (void)dir;
      (void)side;
    }
  }

  Equation equation;
  FM fm;
  fub::CompleteFromConsFn<Equation> rec;
};

template <typename FM, bool Reflects, typename Eq>
std::unique_ptr<Kernel> make_tagged(bool simd, const Eq& eq) {
  if (simd) {
    return std::make_unique<KernelImpl<fub::execution::SimdTag, FM, Reflects>>(eq);
  }
  return std::make_unique<KernelImpl<fub::execution::SequentialTag, FM, Reflects>>(eq);
}
