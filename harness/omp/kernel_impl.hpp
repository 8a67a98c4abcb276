#pragma once
#include "omp/kernel.hpp"

#include "fub/CompleteFromCons.hpp"
#include "fub/Equation.hpp"
#include "fub/Execution.hpp"
#include "fub/flux_method/FluxMethod.hpp"

#include <cmath>
#include <stdexcept>

namespace omp {

/// A view on part of a field.
template <typename State, typename FieldT, typename Eq>
fub::View<State> view_of(const Eq& eq, FieldT& a, const Box& b) {
  constexpr int R = Eq::Rank();
  constexpr auto sR = static_cast<std::size_t>(R);
  using T = std::conditional_t<std::is_const_v<State>, const double, double>;
  fub::BasicView<State, fub::layout_left, R> view;
  auto depths = fub::Depths(eq, fub::Type<std::remove_const_t<State>>{});
  int comp = 0;
  fub::ForEachVariable(
      [&](auto& v, auto depth) {
        int n = 1;
        if constexpr (std::is_same_v<decltype(depth), int>) {
          n = depth;
        } else {
          n = decltype(depth)::value;
        }
        using V = std::decay_t<decltype(v)>;
        constexpr auto sV = static_cast<std::size_t>(V::Rank());
        std::array<std::ptrdiff_t, sV> extent{}, origin{};
        for (std::size_t d = 0; d < sR; ++d) {
          extent[d] = a.box.hi[d] - a.box.lo[d];
          origin[d] = a.box.lo[d];
        }
        if constexpr (sV > sR) {
          extent[sR] = n;
        }
        v = V(fub::mdspan<T, sV>(a.component(comp), extent), origin);
        comp += n;
      },
      view, depths);
  fub::IndexBox<R> box{};
  for (std::size_t d = 0; d < sR; ++d) {
    box.lower[d] = b.lo[d];
    box.upper[d] = b.hi[d];
  }
  return fub::Subview(view, box);
}

template <typename State> void to_numbers(double* out, const State& s) {
  fub::ForEachComponent([&](double x) { *out++ = x; }, s);
}
template <typename State> void from_numbers(State& s, const double* in) {
  fub::ForEachComponent([&](double& x) { x = *in++; }, s);
}

template <typename B> B& base_of(fub::FluxMethod<B>& m) { return m; }

template <typename Method, typename Traits, bool Simd> class KernelT final : public Kernel {
public:
  using Equation = std::decay_t<decltype(std::declval<Method&>().GetEquation())>;
  using Complete = fub::Complete<Equation>;
  using Conservative = fub::Conservative<Equation>;
  static constexpr int R = Equation::Rank();
  static constexpr int W = Method::GetStencilWidth();
  static constexpr auto S = static_cast<std::size_t>(2 * W);

  KernelT() : eq_{Traits::make()}, method_{eq_}, cons_{eq_} {}

  std::unique_ptr<Kernel> clone() const override { return std::make_unique<KernelT>(*this); }
  void assign(const Kernel& o) override { *this = static_cast<const KernelT&>(o); }
  void move_from(Kernel& o) override { *this = std::move(static_cast<KernelT&>(o)); }

  void state(double* q, const std::vector<double>& x, double r) override {
    Complete c(eq_);
    Traits::state(eq_, c, x, r);
    to_numbers(q, c);
  }

  void fluxes(int policy, Field& f, const Box& faces, const Field& q, const Box& cells, double dt, double dx,
              int dir) override {
    const auto out = view_of<Conservative>(eq_, f, faces);
    const auto in = view_of<const Complete>(eq_, q, cells);
    const fub::Duration t(dt);
    const auto d = static_cast<fub::Direction>(dir);
    switch (policy) {
    case kDefault: method_.ComputeNumericFluxes(out, in, t, dx, d); break;
    case kSeq: method_.ComputeNumericFluxes(fub::execution::seq, out, in, t, dx, d); break;
    case kOpenMp: method_.ComputeNumericFluxes(fub::execution::openmp, out, in, t, dx, d); break;
    default:
      if constexpr (Simd) {
        if (policy == kSimd) {
          method_.ComputeNumericFluxes(fub::execution::simd, out, in, t, dx, d);
        } else {
          method_.ComputeNumericFluxes(fub::execution::openmp_simd, out, in, t, dx, d);
        }
      }
    }
  }

  double stable_dt(int policy, const Field& q, const Box& cells, double dx, int dir) override {
    const auto in = view_of<const Complete>(eq_, q, cells);
    const auto d = static_cast<fub::Direction>(dir);
    switch (policy) {
    case kDefault: return method_.ComputeStableDt(in, dx, d);
    case kSeq: return method_.ComputeStableDt(fub::execution::seq, in, dx, d);
    case kOpenMp: return method_.ComputeStableDt(fub::execution::openmp, in, dx, d);
    default:
      if constexpr (Simd) {
        if (policy == kSimd) {
          return method_.ComputeStableDt(fub::execution::simd, in, dx, d);
        }
        return method_.ComputeStableDt(fub::execution::openmp_simd, in, dx, d);
      }
    }
    return 0;
  }

  void complete(int policy, Field& q, const Box& cells, const Field& u) override {
    const auto out = view_of<Complete>(eq_, q, cells);
    const auto in = view_of<const Conservative>(eq_, u, cells);
    switch (policy) {
    case kSeq: cons_.CompleteFromCons(fub::execution::seq, out, in); break;
    case kSimd: cons_.CompleteFromCons(fub::execution::simd, out, in); break;
    case kOpenMp: cons_.CompleteFromCons(fub::execution::openmp, out, in); break;
    case kOpenMpSimd: cons_.CompleteFromCons(fub::execution::openmp_simd, out, in); break;
    default: fub::CompleteFromCons(eq_, out, in);
    }
  }

  void flux_at(double* f, const Field& q, const Idx& face, double dt, double dx, int dir) override {
    std::array<Complete, S> stencil;
    load(stencil, q, face, -W, dir);
    Conservative flux(eq_);
    base_of(method_).ComputeNumericFlux(flux, fub::span<const Complete, static_cast<std::ptrdiff_t>(S)>(stencil),
                                      fub::Duration(dt), dx, static_cast<fub::Direction>(dir));
    to_numbers(f, flux);
  }

  double dt_at(const Field& q, const Idx& first, double dx, int dir) override {
    std::array<Complete, S> stencil;
    load(stencil, q, first, 0, dir);
    return base_of(method_).ComputeStableDt(fub::span<const Complete, static_cast<std::ptrdiff_t>(S)>(stencil), dx,
                                          static_cast<fub::Direction>(dir));
  }

  void complete_at(double* q, const double* u) override {
    Conservative cons(eq_);
    Complete c(eq_);
    from_numbers(cons, u);
    fub::CompleteFromCons(eq_, c, cons);
    to_numbers(q, c);
  }

  static Info info(const char* name, double tolerance = 1e-10, bool iterative = false, bool same_scheme = true,
                   int dirs = R) {
    Info i;
    i.name = name;
    i.rank = R;
    i.width = W;
    i.simd = Simd;
    i.tolerance = tolerance;
    i.iterative = iterative;
    i.same_scheme = same_scheme;
    i.dirs = dirs;
    i.make = []() -> std::unique_ptr<Kernel> { return std::make_unique<KernelT>(); };
    auto eq = Traits::make();
    auto components = [](const auto& s) {
      int n = 0;
      fub::ForEachComponent([&](double) { ++n; }, s);
      return n;
    };
    i.nq = components(Complete(eq));
    i.nu = components(Conservative(eq));
    i.momentum = Traits::kMomentum;
    i.nmomentum = Traits::kMomentum < 0 ? 0 : Traits::kMomenta;
    return i;
  }

private:
  void load(std::array<Complete, S>& stencil, const Field& q, Idx at, int shift, int dir) {
    at[static_cast<std::size_t>(dir)] += shift;
    std::vector<double> x(static_cast<std::size_t>(q.comps));
    for (auto& s : stencil) {
      for (int c = 0; c < q.comps; ++c) {
        x[static_cast<std::size_t>(c)] = q(c, at);
      }
      s = Complete(eq_);
      from_numbers(s, x.data());
      ++at[static_cast<std::size_t>(dir)];
    }
  }

  Equation eq_;
  Method method_;
  fub::CompleteFromConsFn<Equation> cons_;
};

} // namespace omp
