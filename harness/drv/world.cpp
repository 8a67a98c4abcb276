#include "world.hpp"

#include <cstdio>

thread_local RankCtx* g_rc = nullptr;

void violate_for(const char* prop, const char* cls, const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (sim::info().property == prop) {
    sim::violate(cls, "%s", buf);
  }
  sim::note("given up: %s %s: %s", prop, cls, buf);
  sim::count("given-up");
  sim::finish();
}

namespace {
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();

std::size_t S(int i) { return static_cast<std::size_t>(i); }

double unit(uint64_t a, uint64_t b, uint64_t c, uint64_t d = 0) {
  const uint64_t x[4] = {a, b, c, d};
  return static_cast<double>(sim::hash_bytes(x, sizeof x) >> 11) * 0x1p-53;
}

int floor_div(int a, int b) {
  return a >= 0 ? a / b : -((-a + b - 1) / b);
}

/// Maps an index into the domain along periodic directions. False if it is
/// outside of the domain.
bool wrap(const Scenario& sc, const IBox& dom, int idx[3]) {
  for (int d = 0; d < 3; ++d) {
    const int n = dom.len(d);
    if (idx[d] < dom.lo[S(d)] || idx[d] > dom.hi[S(d)]) {
      if (d >= sc.rank || !sc.periodic[S(d)]) {
        return false;
      }
      idx[d] = ((idx[d] - dom.lo[S(d)]) % n + n) % n + dom.lo[S(d)];
    }
  }
  return true;
}

IBox grow(const Scenario& sc, IBox b, int g) {
  for (int d = 0; d < sc.rank; ++d) {
    b.lo[S(d)] -= g;
    b.hi[S(d)] += g;
  }
  return b;
}

void work() {
  // A kernel takes time; ranks interleave here.
  const int64_t cost = g_rc->sc->step_cost_ns;
  if (cost > 0) {
    sim::advance_ns(cost);
  }
  if (g_rc->sc->nranks > 1) {
    sim::yield("kernel");
  }
}
} // namespace

const std::shared_ptr<fub::CounterRegistry>&
HierarchyFacade::GetCounterRegistry() const {
  return grid->registry;
}

uint64_t Snapshot::hash() const {
  uint64_t h = sim::hash_of(levels.size());
  for (const LevelSnap& l : levels) {
    h = sim::hash_of(l.time, h);
    h = sim::hash_of(l.cycles, h);
    for (const IBox& b : l.boxes) {
      h = sim::hash_of(b, h);
    }
  }
  for (const PatchSnap& p : patches) {
    h = sim::hash_of(p.level, h);
    h = sim::hash_of(p.box, h);
    h = sim::hash_bytes(p.v.data(), p.v.size() * sizeof(double), h);
  }
  return sim::hash_of(src_phase, h);
}

// ---------------------------------------------------------------- Grid
IBox Grid::domain(int level) const {
  IBox b;
  for (int d = 0; d < 3; ++d) {
    int n = d < sc->rank ? sc->ncell[S(d)] : 1;
    for (int l = 1; l <= level; ++l) {
      n *= d < sc->rank ? sc->ratio[S(l)][S(d)] : 1;
    }
    b.lo[S(d)] = 0;
    b.hi[S(d)] = n - 1;
  }
  return b;
}

double Grid::dx(int level, int dir) const {
  return sc->length[S(dir)] / domain(level).len(dir);
}

int Grid::total_ratio(int level) const {
  int r = 1;
  for (int l = 1; l <= level; ++l) {
    int m = 1;
    for (int d = 0; d < sc->rank; ++d) {
      m = std::max(m, sc->ratio[S(l)][S(d)]);
    }
    r *= m;
  }
  return r;
}

std::vector<Patch> Grid::MakeLayout(int level, uint64_t epoch) const {
  std::vector<Patch> result;
  if (level == 0) {
    const IBox dom = domain(0);
    const int b = sc->block0;
    for (int k = dom.lo[2]; k <= dom.hi[2]; k += b)
      for (int j = dom.lo[1]; j <= dom.hi[1]; j += b)
        for (int i = dom.lo[0]; i <= dom.hi[0]; i += b) {
          IBox p;
          p.lo = {i, j, k};
          p.hi = {std::min(i + b - 1, dom.hi[0]), std::min(j + b - 1, dom.hi[1]),
                  std::min(k + b - 1, dom.hi[2])};
          result.push_back({p, 0});
        }
  } else {
    const GridLevel& parent = levels[S(level - 1)];
    const IBox dom = domain(level - 1);
    Fab covered(dom, 1, 0.0);
    for (const Patch& p : parent.patches) {
      for_each_cell(p.box, [&](int i, int j, int k) { covered.at(i, j, k, 0) = 1.0; });
    }
    const int b = sc->block;
    std::array<int, 3> margin{0, 0, 0};
    for (int d = 0; d < sc->rank; ++d) {
      const int r = sc->ratio[S(level)][S(d)];
      margin[S(d)] = (sc->ghost + r - 1) / r;
    }
    for (int k = dom.lo[2]; k <= dom.hi[2]; k += b)
      for (int j = dom.lo[1]; j <= dom.hi[1]; j += b) {
        bool previous = false;
        for (int i = dom.lo[0]; i <= dom.hi[0]; i += b) {
          IBox c;
          c.lo = {i, j, k};
          c.hi = {std::min(i + b - 1, dom.hi[0]), std::min(j + b - 1, dom.hi[1]),
                  std::min(k + b - 1, dom.hi[2])};
          const uint64_t id = S(i) + 1000 * S(j) + 1000000 * S(k);
          bool refine = unit(sc->salt, epoch * 8 + S(level), id, 1) < sc->p_refine;
          if (refine && level > 1) {
            IBox g = c;
            for (int d = 0; d < sc->rank; ++d) {
              g.lo[S(d)] -= margin[S(d)];
              g.hi[S(d)] += margin[S(d)];
            }
            for_each_cell(g, [&](int x, int y, int z) {
              int idx[3] = {x, y, z};
              if (wrap(*sc, dom, idx) && covered.at(idx[0], idx[1], idx[2], 0) == 0.0) {
                refine = false;
              }
            });
          }
          if (!refine) {
            previous = false;
            continue;
          }
          IBox f;
          for (int d = 0; d < 3; ++d) {
            const int r = d < sc->rank ? sc->ratio[S(level)][S(d)] : 1;
            f.lo[S(d)] = c.lo[S(d)] * r;
            f.hi[S(d)] = c.hi[S(d)] * r + r - 1;
          }
          if (previous && unit(sc->salt, S(level), id, 2) < 0.5) {
            result.back().box.hi[0] = f.hi[0];
          } else {
            result.push_back({f, 0});
          }
          previous = true;
        }
      }
  }
  for (std::size_t n = 0; n < result.size(); ++n) {
    const IBox& b = result[n].box;
    result[n].owner = static_cast<int>(
        unit(sc->salt, S(level) + 100, S(b.lo[0] + 7) * 31 + S(b.lo[1]), S(b.lo[2]) + epoch * 77) *
        nranks);
  }
  return result;
}

Fab Grid::Gather(const std::vector<Fab>& fabs, int level, int ncomp) const {
  const GridLevel& L = levels[S(level)];
  Fab result(domain(level), ncomp, NaN);
  auto put = [&](const IBox& b, const double* src) {
    std::size_t n = 0;
    for (int c = 0; c < ncomp; ++c) {
      for_each_cell(b, [&](int i, int j, int k) { result.at(i, j, k, c) = src[n++]; });
    }
  };
  auto pack = [&](const Fab& f, const IBox& b, std::vector<double>& out) {
    for (int c = 0; c < ncomp; ++c) {
      for_each_cell(b, [&](int i, int j, int k) { out.push_back(f.at(i, j, k, c)); });
    }
  };
  std::vector<double> mine;
  for (std::size_t p = 0; p < L.patches.size(); ++p) {
    if (L.patches[p].owner == rank) {
      pack(fabs[p], L.patches[p].box, mine);
    }
  }
  std::vector<double> all;
  std::vector<int> counts(S(nranks), 0), offsets(S(nranks), 0);
  for (const Patch& p : L.patches) {
    counts[S(p.owner)] += static_cast<int>(p.box.size()) * ncomp;
  }
  int total = 0;
  for (int r = 0; r < nranks; ++r) {
    offsets[S(r)] = total;
    total += counts[S(r)];
  }
  if (nranks > 1) {
    all.resize(S(total));
    MPI_Allgatherv(mine.data(), static_cast<int>(mine.size()), MPI_DOUBLE,
                   all.data(), counts.data(), offsets.data(), MPI_DOUBLE, comm);
  } else {
    all = std::move(mine);
  }
  std::vector<int> pos = offsets;
  for (const Patch& p : L.patches) {
    put(p.box, all.data() + pos[S(p.owner)]);
    pos[S(p.owner)] += static_cast<int>(p.box.size()) * ncomp;
  }
  return result;
}

Grid::Grid(const Scenario& s, int r, int n, MPI_Comm c)
    : sc(&s), rank(r), nranks(n), comm(c),
      registry(std::make_shared<fub::CounterRegistry>()) {
  const EquationInfo e = equation_info(s.eq);
  for (int l = 0; l < s.max_levels; ++l) {
    GridLevel L;
    L.patches = MakeLayout(l, 0);
    if (L.patches.empty()) {
      break;
    }
    const IBox dom = domain(l);
    for (const Patch& p : L.patches) {
      if (p.owner != rank) {
        L.data.emplace_back();
        continue;
      }
      Fab f(p.box, e.ncomp);
      std::vector<double> q(S(e.ncomp));
      for_each_cell(p.box, [&](int i, int j, int k) {
        const int idx[3] = {i, j, k};
        double x[3];
        for (int d = 0; d < 3; ++d) {
          x[d] = (idx[d] + 0.5) / dom.len(d);
        }
        initial_values(s.eq, s.salt, x, q.data());
        for (int m = 0; m < e.ncomp; ++m) {
          f.at(i, j, k, m) = q[S(m)];
        }
      });
      L.data.push_back(std::move(f));
    }
    L.time = L.regrid_time = s.start_time;
    L.cycles = s.start_cycles;
    levels.push_back(std::move(L));
  }
}

int Grid::Regrid(int level) {
  const EquationInfo e = equation_info(sc->eq);
  int first = sc->max_levels;
  for (int l = level + 1; l < sc->max_levels; ++l) {
    const uint64_t epoch = static_cast<uint64_t>(levels[S(level)].cycles) /
                           static_cast<uint64_t>(sc->period);
    std::vector<Patch> patches = MakeLayout(l, epoch);
    if (patches.empty()) {
      if (l < num_levels()) {
        levels.resize(S(l));
        first = std::min(first, l);
      }
      break;
    }
    const bool exists = l < num_levels();
    bool same = exists && patches.size() == levels[S(l)].patches.size();
    if (same) {
      for (std::size_t p = 0; p < patches.size(); ++p) {
        same = same && patches[p].box == levels[S(l)].patches[p].box &&
               patches[p].owner == levels[S(l)].patches[p].owner;
      }
    }
    if (same && first == sc->max_levels) {
      continue;
    }
    Fab coarse = Gather(levels[S(l - 1)].data, l - 1, e.ncomp);
    Fab fine(domain(l), e.ncomp, NaN);
    if (exists) {
      fine = Gather(levels[S(l)].data, l, e.ncomp);
    }
    GridLevel L;
    L.patches = std::move(patches);
    L.time = exists ? levels[S(l)].time : levels[S(l - 1)].time;
    L.cycles = exists ? levels[S(l)].cycles : levels[S(l - 1)].cycles;
    L.regrid_time = L.time;
    for (const Patch& p : L.patches) {
      if (p.owner != rank) {
        L.data.emplace_back();
        continue;
      }
      Fab f(p.box, e.ncomp);
      for_each_cell(p.box, [&](int i, int j, int k) {
        const bool old = !std::isnan(fine.at(i, j, k, 0));
        const auto& r = sc->ratio[S(l)];
        for (int m = 0; m < e.ncomp; ++m) {
          f.at(i, j, k, m) =
              old ? fine.at(i, j, k, m)
                  : coarse.at(floor_div(i, r[0]),
                              sc->rank > 1 ? floor_div(j, r[1]) : j,
                              sc->rank > 2 ? floor_div(k, r[2]) : k, m);
        }
      });
      L.data.push_back(std::move(f));
    }
    if (exists) {
      levels[S(l)] = std::move(L);
    } else {
      levels.push_back(std::move(L));
    }
    first = std::min(first, l);
    sim::count("regrid");
  }
  return first;
}

Snapshot Grid::snapshot() const {
  Snapshot s;
  for (int l = 0; l < num_levels(); ++l) {
    const GridLevel& L = levels[S(l)];
    LevelSnap ls{L.time, L.cycles, {}};
    for (std::size_t p = 0; p < L.patches.size(); ++p) {
      ls.boxes.push_back(L.patches[p].box);
      if (L.patches[p].owner == rank) {
        s.patches.push_back({l, L.patches[p].box, L.data[p].v});
      }
    }
    s.levels.push_back(std::move(ls));
  }
  return s;
}

// ---------------------------------------------------------------- SimContext
SimContext::SimContext(std::shared_ptr<Grid> grid, SimMethod method)
    : grid_(std::move(grid)), method_(std::move(method)) {}

SimContext::SimContext(const SimContext& other)
    : grid_(std::make_shared<Grid>(*other.grid_)), data_{},
      method_(other.method_), options_(other.options_) {}

SimContext& SimContext::operator=(const SimContext& other) {
  SimContext tmp(other);
  return *this = std::move(tmp);
}

fub::Duration SimContext::GetTimePoint(int level) const {
  if (S(level) < data_.size()) {
    return fub::Duration(data_[S(level)].time);
  }
  return fub::Duration(grid_->levels[S(level)].time);
}
std::ptrdiff_t SimContext::GetCycles(int level) const {
  if (S(level) < data_.size()) {
    return data_[S(level)].cycles;
  }
  return grid_->levels[S(level)].cycles;
}
bool SimContext::LevelExists(int level) const noexcept {
  return 0 <= level && level < grid_->num_levels();
}
IntVect3 SimContext::GetRatioToCoarserLevel(int level) const noexcept {
  IntVect3 r{{1, 1, 1}};
  for (int d = 0; level > 0 && d < grid_->sc->rank; ++d) {
    r.v[S(d)] = grid_->sc->ratio[S(level)][S(d)];
  }
  return r;
}

std::vector<int> SimContext::owned(int level) const {
  std::vector<int> r;
  const auto& ps = grid_->levels[S(level)].patches;
  for (std::size_t p = 0; p < ps.size(); ++p) {
    if (ps[p].owner == grid_->rank) {
      r.push_back(static_cast<int>(p));
    }
  }
  return r;
}

void SimContext::BuildRegister(int level) {
  LevelData& D = data_[S(level)];
  D.entries.clear();
  const Scenario& sc = *grid_->sc;
  const GridLevel& F = grid_->levels[S(level)];
  const GridLevel& C = grid_->levels[S(level - 1)];
  const IBox cdom = grid_->domain(level - 1);
  Fab cov(cdom, 1, -1.0);   // fine patch that covers a coarse cell
  Fab own(cdom, 1, -1.0);   // coarse patch of a coarse cell
  const auto& r = sc.ratio[S(level)];
  auto rr = [&](int d) { return d < sc.rank ? r[S(d)] : 1; };
  for (std::size_t p = 0; p < C.patches.size(); ++p) {
    for_each_cell(C.patches[p].box, [&](int i, int j, int k) { own.at(i, j, k, 0) = static_cast<double>(p); });
  }
  for (std::size_t p = 0; p < F.patches.size(); ++p) {
    IBox b = F.patches[p].box;
    for (int d = 0; d < 3; ++d) {
      b.lo[S(d)] = floor_div(b.lo[S(d)], rr(d));
      b.hi[S(d)] = floor_div(b.hi[S(d)], rr(d));
    }
    for_each_cell(b, [&](int i, int j, int k) { cov.at(i, j, k, 0) = static_cast<double>(p); });
  }
  for_each_cell(cdom, [&](int i, int j, int k) {
    if (cov.at(i, j, k, 0) >= 0.0 || own.at(i, j, k, 0) < 0.0) {
      return;
    }
    for (int d = 0; d < sc.rank; ++d) {
      for (int side = 0; side < 2; ++side) {
        int nb[3] = {i, j, k};
        nb[d] += side == 0 ? -1 : 1;
        if (!wrap(sc, cdom, nb) || cov.at(nb[0], nb[1], nb[2], 0) < 0.0) {
          continue;
        }
        RegisterEntry e;
        e.cell = {i, j, k};
        e.dir = d;
        e.side = side;
        e.coarse_patch = static_cast<int>(own.at(i, j, k, 0));
        e.fine_patch = static_cast<int>(cov.at(nb[0], nb[1], nb[2], 0));
        for (int q = 0; q < 3; ++q) {
          e.fine_lo[S(q)] = nb[q] * rr(q);
          e.fine_hi[S(q)] = nb[q] * rr(q) + rr(q) - 1;
        }
        const int face = side == 0 ? (nb[d] + 1) * rr(d) : nb[d] * rr(d);
        e.fine_lo[S(d)] = e.fine_hi[S(d)] = face;
        D.entries.push_back(e);
      }
    }
  });
  const std::size_t n = D.entries.size() * S(equation_info(sc.eq).ncons);
  D.reg_fine.assign(n, 0.0);
  D.reg_coarse.assign(n, 0.0);
}

void SimContext::ResetHierarchyConfiguration(std::shared_ptr<Grid> grid) {
  grid_ = std::move(grid);
  ResetHierarchyConfiguration(0);
}

void SimContext::ResetHierarchyConfiguration(int first) {
  const Scenario& sc = *grid_->sc;
  const EquationInfo e = equation_info(sc.eq);
  const int w = method_.flux_method.GetStencilWidth();
  const std::size_t old = data_.size();
  data_.resize(S(grid_->num_levels()));
  for (int l = first; l < grid_->num_levels(); ++l) {
    LevelData& D = data_[S(l)];
    const GridLevel& G = grid_->levels[S(l)];
    D.scratch.assign(G.patches.size(), Fab());
    D.flux.assign(G.patches.size(), {});
    for (int p : owned(l)) {
      const IBox box = G.patches[S(p)].box;
      D.scratch[S(p)] = Fab(grow(sc, box, sc.ghost), e.ncomp, NaN);
      Fab& f = D.scratch[S(p)];
      for (int c = 0; c < e.ncomp; ++c) {
        for_each_cell(box, [&](int i, int j, int k) { f.at(i, j, k, c) = G.data[S(p)].at(i, j, k, c); });
      }
      for (int d = 0; d < sc.rank; ++d) {
        IBox fb = grow(sc, box, sc.ghost);
        fb.lo[S(d)] = box.lo[S(d)] - (sc.ghost - w);
        fb.hi[S(d)] = box.hi[S(d)] + (sc.ghost - w) + 1;
        D.flux[S(p)][S(d)] = Fab(fb, e.ncons, 0.0);
      }
    }
    if (first == 0 || S(l) >= old) {
      D.time = G.time;
      D.cycles = G.cycles;
    }
  }
  for (int l = std::max(1, first); l < grid_->num_levels(); ++l) {
    BuildRegister(l);
  }
  if (first > 0 && first < grid_->num_levels()) {
    // nothing else: ghost cells stay undefined until they are filled
  }
}

void SimContext::FillGhosts(int level, const Fab& same, const Fab* coarse,
                            std::vector<Fab>& scratch) {
  const Scenario& sc = *grid_->sc;
  const EquationInfo e = equation_info(sc.eq);
  const IBox dom = grid_->domain(level);
  auto rr = [&](int d) { return d < sc.rank ? sc.ratio[S(level)][S(d)] : 1; };
  for (int p : owned(level)) {
    Fab& f = scratch[S(p)];
    const IBox valid = grid_->levels[S(level)].patches[S(p)].box;
    for_each_cell(f.box, [&](int i, int j, int k) {
      if (valid.contains(i, j, k)) {
        return;
      }
      int idx[3] = {i, j, k};
      if (!wrap(sc, dom, idx)) {
        return;
      }
      if (!std::isnan(same.at(idx[0], idx[1], idx[2], 0)) || coarse == nullptr) {
        for (int c = 0; c < e.ncomp; ++c) {
          f.at(i, j, k, c) = same.at(idx[0], idx[1], idx[2], c);
        }
        return;
      }
      const int q[3] = {floor_div(idx[0], rr(0)), floor_div(idx[1], rr(1)),
                        floor_div(idx[2], rr(2))};
      for (int c = 0; c < e.ncomp; ++c) {
        f.at(i, j, k, c) = coarse->at(q[0], q[1], q[2], c);
      }
    });
  }
}

void SimContext::ApplyBoundaryCondition(int level, fub::Direction dir) {
  const Scenario& sc = *grid_->sc;
  const int d = static_cast<int>(dir);
  if (sc.periodic[S(d)]) {
    return;
  }
  KernelMethod* dummy = nullptr;
  (void)dummy;
  const IBox dom = grid_->domain(level);
  static thread_local std::unique_ptr<Kernel> bc_kernel;
  static thread_local int bc_eq = -1;
  if (bc_eq != sc.eq) {
    bc_kernel = make_kernel(sc.eq, MethodFirstOrder, false, sc.salt);
    bc_eq = sc.eq;
  }
  for (int p : owned(level)) {
    Fab& f = data_[S(level)].scratch[S(p)];
    IBox g = f.box;
    g.hi[S(d)] = dom.lo[S(d)] - 1;
    if (!g.empty()) {
      bc_kernel->reflect(f, g, d, 0);
    }
    g = f.box;
    g.lo[S(d)] = dom.hi[S(d)] + 1;
    if (!g.empty()) {
      bc_kernel->reflect(f, g, d, 1);
    }
  }
}

void SimContext::FillGhostLayerSingleLevel(int level) {
  const EquationInfo e = equation_info(grid_->sc->eq);
  Fab same = grid_->Gather(data_[S(level)].scratch, level, e.ncomp);
  FillGhosts(level, same, nullptr, data_[S(level)].scratch);
  for (int d = 0; d < grid_->sc->rank; ++d) {
    ApplyBoundaryCondition(level, static_cast<fub::Direction>(d));
  }
}

void SimContext::FillGhostLayerTwoLevels(int fine, int coarse) {
  const EquationInfo e = equation_info(grid_->sc->eq);
  Fab same = grid_->Gather(data_[S(fine)].scratch, fine, e.ncomp);
  Fab crse = grid_->Gather(data_[S(coarse)].scratch, coarse, e.ncomp);
  FillGhosts(fine, same, &crse, data_[S(fine)].scratch);
  for (int d = 0; d < grid_->sc->rank; ++d) {
    ApplyBoundaryCondition(fine, static_cast<fub::Direction>(d));
  }
}

void SimContext::CopyDataToScratch(int level) {
  const EquationInfo e = equation_info(grid_->sc->eq);
  const GridLevel& G = grid_->levels[S(level)];
  for (int p : owned(level)) {
    Fab& f = data_[S(level)].scratch[S(p)];
    for (int c = 0; c < e.ncomp; ++c) {
      for_each_cell(G.patches[S(p)].box, [&](int i, int j, int k) { f.at(i, j, k, c) = G.data[S(p)].at(i, j, k, c); });
    }
  }
  Fab same = grid_->Gather(G.data, level, e.ncomp);
  if (level > 0) {
    Fab crse = grid_->Gather(grid_->levels[S(level - 1)].data, level - 1, e.ncomp);
    FillGhosts(level, same, &crse, data_[S(level)].scratch);
  } else {
    FillGhosts(level, same, nullptr, data_[S(level)].scratch);
  }
  for (int d = 0; d < grid_->sc->rank; ++d) {
    ApplyBoundaryCondition(level, static_cast<fub::Direction>(d));
  }
}

void SimContext::CopyScratchToData(int level) {
  const EquationInfo e = equation_info(grid_->sc->eq);
  GridLevel& G = grid_->levels[S(level)];
  for (int p : owned(level)) {
    const Fab& f = data_[S(level)].scratch[S(p)];
    for (int c = 0; c < e.ncomp; ++c) {
      for_each_cell(G.patches[S(p)].box, [&](int i, int j, int k) { G.data[S(p)].at(i, j, k, c) = f.at(i, j, k, c); });
    }
  }
}

void SimContext::PreAdvanceHierarchy() {
  if (static_cast<int>(data_.size()) != grid_->num_levels()) {
    ResetHierarchyConfiguration(0);
    for (int l = 0; l < grid_->num_levels(); ++l) {
      CopyDataToScratch(l);
    }
  }
}

void SimContext::PostAdvanceHierarchy(fub::Duration dt) {
  for (int l = 0; l < grid_->num_levels(); ++l) {
    grid_->levels[S(l)].time = data_[0].time;
    grid_->levels[S(l)].cycles = data_[S(l)].cycles;
  }
  if (g_rc->rec) {
    char b[64];
    std::snprintf(b, sizeof b, "ctx %a", dt.count());
    g_rc->rec->post_hooks.push_back(b);
  }
}

int SimContext::PreAdvanceLevel(int level, fub::Duration dt,
                                std::pair<int, int> subcycle) {
  if (g_rc->in_advance) {
    g_rc->attempt().begins.push_back({level, dt.count(), subcycle.first, subcycle.second});
    g_rc->sub.resize(std::max(g_rc->sub.size(), S(level) + 1), {0, 1});
    g_rc->sub[S(level)] = subcycle;
  }
  int first = grid_->sc->max_levels;
  GridLevel& G = grid_->levels[S(level)];
  if (subcycle.first == 0 && G.regrid_time != data_[S(level)].time) {
    G.regrid_time = data_[S(level)].time;
    G.cycles = data_[S(level)].cycles;
    first = grid_->Regrid(level);
    for (int l = level; l < grid_->num_levels(); ++l) {
      grid_->levels[S(l)].regrid_time =
          S(l) < data_.size() && l < first ? data_[S(l)].time : grid_->levels[S(l)].time;
    }
    if (first < grid_->sc->max_levels) {
      ResetHierarchyConfiguration(first);
      for (int l = first; l < grid_->num_levels(); ++l) {
        data_[S(l)].time = grid_->levels[S(l)].time;
        data_[S(l)].cycles = grid_->levels[S(l)].cycles;
      }
    }
  }
  return first;
}

fub::Result<void, fub::TimeStepTooLarge>
SimContext::PostAdvanceLevel(int level, fub::Duration dt,
                             std::pair<int, int> subcycle) {
  LevelData& D = data_[S(level)];
  D.cycles += 1;
  double time = D.time + dt.count();
  if (grid_->nranks > 1) {
    ::MPI_Bcast(&time, 1, MPI_DOUBLE, 0, GetMpiCommunicator());
  }
  D.time = time;
  if (subcycle.first == subcycle.second - 1) {
    grid_->levels[S(level)].time = D.time;
    grid_->levels[S(level)].cycles = D.cycles;
  }
  if (g_rc->in_advance) {
    Attempt& a = g_rc->attempt();
    const int index = static_cast<int>(a.ends.size());
    a.ends.push_back({level, dt.count(), subcycle.first, subcycle.second, time,
                      a.parts.size()});
    for (const Fault& f : g_rc->sc->faults) {
      if (g_rc->faults && f.kind == FaultPostLevel && f.index == index &&
          f.attempt == static_cast<int>(g_rc->rec->attempts.size()) - 1) {
        sim::count("fault:post-level-failure");
        const double err = f.factor * dt.count();
        a.own_failure_dt = err;
        a.own_failure_level = level;
        return fub::TimeStepTooLarge{fub::Duration(err), level};
      }
    }
  }
  return boost::outcome_v2::success();
}

void SimContext::PreSplitStep(int, fub::Duration dt, fub::Direction, std::pair<int, int>) {
  g_rc->announced = dt.count();
}

void SimContext::RequireFilledGhosts(int level, const char* where) {
  for (int p : owned(level)) {
    const IBox& valid = grid_->levels[S(level)].patches[S(p)].box;
    const Fab& f = data_[S(level)].scratch[S(p)];
    for_each_cell(valid, [&](int i, int j, int k) {
      if (!std::isfinite(f.at(i, j, k, 0)) || !std::isfinite(f.at(i, j, k, f.ncomp - 1))) {
        sim::count("unphysical-state");
        sim::finish();
      }
    });
    for (double x : data_[S(level)].scratch[S(p)].v) {
      if (std::isnan(x)) {
        violate_for("C04", "unfilled-ghost-cells",
                    "%s on level %d reads ghost cells that were not filled "
                    "since the last regridding",
                    where, level);
      }
    }
  }
}

double SimContext::KernelStableDt(int level, int dir) {
  return method_.flux_method.ComputeStableDt(*this, level, static_cast<fub::Direction>(dir)).count();
}

namespace {
double injected_bound(const Grid& g, int level, int index) {
  double b = std::numeric_limits<double>::infinity();
  if (!g_rc->faults || !g_rc->in_advance) {
    return b;
  }
  const int attempt = static_cast<int>(g_rc->rec->attempts.size()) - 1;
  for (const Fault& f : g_rc->sc->faults) {
    if (f.kind == FaultStableDt && f.attempt == attempt && f.index == index &&
        (g.nranks == 1 || f.rank % g.nranks == g.rank)) {
      const int ratio = g_rc->sc->subcycle ? g.total_ratio(level) : 1;
      b = std::min(b, f.factor * g_rc->attempt().dt / ratio);
      sim::count("fault:stable-dt-drop");
    }
  }
  return b;
}
} // namespace

fub::Duration SimContext::ComputeStableDt(int level, fub::Direction dir) {
  RequireFilledGhosts(level, "ComputeStableDt");
  work();
  double dt = KernelStableDt(level, static_cast<int>(dir));
  if (g_rc->in_advance) {
    Attempt& a = g_rc->attempt();
    dt = std::min(dt, injected_bound(*grid_, level, static_cast<int>(a.parts.size())));
    a.checks.push_back({static_cast<int>(a.parts.size()), level, static_cast<int>(dir), dt, g_rc->announced});
    g_rc->announced = NaN;
  }
  return fub::Duration(dt);
}

void SimContext::ComputeNumericFluxes(int level, fub::Duration dt, fub::Direction dir) {
  RequireFilledGhosts(level, "ComputeNumericFluxes");
  work();
  if (g_rc->in_advance) {
    Attempt& a = g_rc->attempt();
    double bound = KernelStableDt(level, static_cast<int>(dir));
    const int index = static_cast<int>(a.parts.size());
    bound = std::min(bound, injected_bound(*grid_, level, index));
    const auto sub = S(level) < g_rc->sub.size() ? g_rc->sub[S(level)] : std::pair{0, 1};
    a.parts.push_back({level, static_cast<int>(dir), dt.count(), bound, sub.first, sub.second});
    a.ops_after_failure += a.op_failed;
    a.op_order.push_back(level * 10 + static_cast<int>(dir));
  }
  method_.flux_method.ComputeNumericFluxes(*this, level, dt, dir);
}

void SimContext::UpdateConservatively(int level, fub::Duration dt, fub::Direction dir) {
  method_.time_integrator.UpdateConservatively(*this, level, dt, dir);
}

void SimContext::CompleteFromCons(int level, fub::Duration dt) {
  method_.reconstruction.CompleteFromCons(*this, level, dt);
}

void SimContext::AccumulateCoarseFineFluxes(int level, double scale, fub::Direction dir) {
  const Scenario& sc = *grid_->sc;
  const int ncons = equation_info(sc.eq).ncons;
  const int d = static_cast<int>(dir);
  if (level > 0) {
    LevelData& D = data_[S(level)];
    double area = 1.0;
    for (int q = 0; q < sc.rank; ++q) {
      if (q != d) {
        area /= sc.ratio[S(level)][S(q)];
      }
    }
    for (std::size_t n = 0; n < D.entries.size(); ++n) {
      const RegisterEntry& e = D.entries[n];
      if (e.dir != d || grid_->levels[S(level)].patches[S(e.fine_patch)].owner != grid_->rank) {
        continue;
      }
      const Fab& f = D.flux[S(e.fine_patch)][S(d)];
      for (int c = 0; c < ncons; ++c) {
        double s = 0.0;
        IBox b;
        b.lo = e.fine_lo;
        b.hi = e.fine_hi;
        for_each_cell(b, [&](int i, int j, int k) { s += f.at(i, j, k, c); });
        D.reg_fine[n * S(ncons) + S(c)] += s * scale * area;
      }
    }
  }
  if (LevelExists(level + 1)) {
    LevelData& D = data_[S(level + 1)];
    for (std::size_t n = 0; n < D.entries.size(); ++n) {
      const RegisterEntry& e = D.entries[n];
      if (e.dir != d || grid_->levels[S(level)].patches[S(e.coarse_patch)].owner != grid_->rank) {
        continue;
      }
      const Fab& f = data_[S(level)].flux[S(e.coarse_patch)][S(d)];
      std::array<int, 3> face = e.cell;
      face[S(d)] += e.side;
      for (int c = 0; c < ncons; ++c) {
        D.reg_coarse[n * S(ncons) + S(c)] += f.at(face[0], face[1], face[2], c) * scale;
      }
    }
  }
}

void SimContext::ResetCoarseFineFluxes(int fine, int) {
  LevelData& D = data_[S(fine)];
  std::fill(D.reg_fine.begin(), D.reg_fine.end(), 0.0);
  std::fill(D.reg_coarse.begin(), D.reg_coarse.end(), 0.0);
}

void SimContext::ApplyFluxCorrection(int fine, int coarse, fub::Duration) {
  const Scenario& sc = *grid_->sc;
  const int ncons = equation_info(sc.eq).ncons;
  LevelData& D = data_[S(fine)];
  std::vector<double> sum = D.reg_fine;
  if (grid_->nranks > 1 && !sum.empty()) {
    MPI_Allreduce(D.reg_fine.data(), sum.data(), static_cast<int>(sum.size()), MPI_DOUBLE, MPI_SUM, grid_->comm);
  }
  for (std::size_t n = 0; n < D.entries.size(); ++n) {
    const RegisterEntry& e = D.entries[n];
    if (grid_->levels[S(coarse)].patches[S(e.coarse_patch)].owner != grid_->rank) {
      continue;
    }
    Fab& f = data_[S(coarse)].scratch[S(e.coarse_patch)];
    const double sign = e.side == 0 ? 1.0 : -1.0;
    const double dx = grid_->dx(coarse, e.dir);
    for (int c = 0; c < ncons; ++c) {
      const std::size_t m = n * S(ncons) + S(c);
      f.at(e.cell[0], e.cell[1], e.cell[2], c) +=
          sign * ((sum[m] + 0.0) - D.reg_coarse[m]) / dx + 0.0;
    }
  }
}

void SimContext::CoarsenConservatively(int fine, int coarse) {
  const Scenario& sc = *grid_->sc;
  const EquationInfo e = equation_info(sc.eq);
  Fab F = grid_->Gather(data_[S(fine)].scratch, fine, e.ncons);
  auto rr = [&](int d) { return d < sc.rank ? sc.ratio[S(fine)][S(d)] : 1; };
  const double n = static_cast<double>(rr(0) * rr(1) * rr(2));
  for (int p : owned(coarse)) {
    Fab& f = data_[S(coarse)].scratch[S(p)];
    for_each_cell(grid_->levels[S(coarse)].patches[S(p)].box, [&](int i, int j, int k) {
      IBox b;
      b.lo = {i * rr(0), j * rr(1), k * rr(2)};
      b.hi = {i * rr(0) + rr(0) - 1, j * rr(1) + rr(1) - 1, k * rr(2) + rr(2) - 1};
      if (std::isnan(F.at(b.lo[0], b.lo[1], b.lo[2], 0))) {
        return;
      }
      for (int c = 0; c < e.ncons; ++c) {
        double s = 0.0;
        for_each_cell(b, [&](int x, int y, int z) { s += F.at(x, y, z, c); });
        f.at(i, j, k, c) = s / n;
      }
    });
  }
}

// ---------------------------------------------------------------- KernelMethod
fub::Duration KernelMethod::ComputeStableDt(SimContext& c, int level, fub::Direction dir) {
  double dt = std::numeric_limits<double>::max();
  const int d = static_cast<int>(dir);
  for (int p : c.owned(level)) {
    const Fab& f = c.data(level).scratch[S(p)];
    dt = std::min(dt, k->stable_dt(f, f.box, c.grid().dx(level, d), d));
  }
  return fub::Duration(dt);
}

void KernelMethod::ComputeNumericFluxes(SimContext& c, int level, fub::Duration dt, fub::Direction dir) {
  const int d = static_cast<int>(dir);
  for (int p : c.owned(level)) {
    Fab& flux = c.data(level).flux[S(p)][S(d)];
    k->fluxes(flux, flux.box, c.data(level).scratch[S(p)], dt.count(), c.grid().dx(level, d), d);
  }
}

void KernelMethod::UpdateConservatively(SimContext& c, int level, fub::Duration dt, fub::Direction dir) {
  const int d = static_cast<int>(dir);
  for (int p : c.owned(level)) {
    const Fab& flux = c.data(level).flux[S(p)][S(d)];
    IBox cells = flux.box;
    cells.hi[S(d)] -= 1;
    k->update(c.data(level).scratch[S(p)], flux, cells, dt.count(), c.grid().dx(level, d), d);
  }
}

void KernelMethod::CompleteFromCons(SimContext& c, int level, fub::Duration) {
  const EquationInfo e = equation_info(c.grid().sc->eq);
  for (int p : c.owned(level)) {
    Fab& f = c.data(level).scratch[S(p)];
    if (e.gas) {
      for_each_cell(f.box, [&](int i, int j, int q) {
        double ke = 0.0;
        for (int d = 0; d < e.rank; ++d) {
          ke += 0.5 * f.at(i, j, q, 1 + d) * f.at(i, j, q, 1 + d) / f.at(i, j, q, 0);
        }
        if (f.at(i, j, q, 0) <= 0.0 || f.at(i, j, q, 1 + e.rank) <= ke) {
          const IBox& v = c.grid().levels[S(level)].patches[S(p)].box;
          sim::note("unphysical state: level %d cell %d %d %d of [%d %d]x[%d %d] density %g energy %g kinetic %g attempts %zu", level, i, j, q, v.lo[0], v.hi[0], v.lo[1], v.hi[1],
                    f.at(i, j, q, 0), f.at(i, j, q, 1 + e.rank), ke, g_rc->rec ? g_rc->rec->attempts.size() : 0);
          sim::count("unphysical-state");
          sim::finish();
        }
      });
    }
    k->complete(f, f.box);
  }
}

// ---------------------------------------------------------------- SimSource
fub::Duration SimSource::ComputeStableDt(SimContext& ctx, int level) {
  // Depends on the patches a rank owns.
  double dt = std::numeric_limits<double>::max();
  const auto& ps = ctx.grid().levels[S(level)].patches;
  for (int p : ctx.owned(level)) {
    const double u = unit(sc->salt, 900 + S(level), S(ps[S(p)].box.lo[0]) * 100 + S(ps[S(p)].box.lo[1]));
    const double scale = ctx.grid().dx(level, 0);
    dt = std::min(dt, scale * (0.2 + 2.0 * u) * (1.0 + 0.2 * std::sin(static_cast<double>(calls))));
  }
  return fub::Duration(dt);
}

fub::Result<void, fub::TimeStepTooLarge>
SimSource::AdvanceLevel(SimContext& ctx, int level, fub::Duration dt) {
  work();
  if (g_rc->in_advance) {
    Attempt& a = g_rc->attempt();
    const int index = static_cast<int>(a.sources.size());
    for (const Fault& f : sc->faults) {
      if (g_rc->faults && f.kind == FaultSource && f.index == index &&
          f.attempt == static_cast<int>(g_rc->rec->attempts.size()) - 1) {
        sim::count("fault:source-failure");
        const double err = f.factor * dt.count();
        a.sources.push_back({level, dt.count(), false, err});
        a.ops_after_failure += a.op_failed;
        a.op_failed = true;
        return fub::TimeStepTooLarge{fub::Duration(err), level};
      }
    }
    a.sources.push_back({level, dt.count(), true, 0.0});
    a.ops_after_failure += a.op_failed;
    a.op_order.push_back(100 + level * 10);
  }
  calls += 1;
  if (level == 0) {
    phase += dt.count();
  }
  const EquationInfo e = equation_info(sc->eq);
  const int comp = e.gas ? 1 + e.rank : 0;
  const double scale = ctx.grid().dx(0, 0);
  const double k = sc->src_strength / scale * (1.0 + 0.5 * std::sin(phase / scale + static_cast<double>(calls)));
  for (int p : ctx.owned(level)) {
    Fab& f = ctx.data(level).scratch[S(p)];
    for_each_cell(f.box, [&](int i, int j, int q) { f.at(i, j, q, comp) *= 1.0 + k * dt.count(); });
  }
  ctx.CompleteFromCons(level, dt);
  return boost::outcome_v2::success();
}

void SimSource::PostAdvanceHierarchy(fub::Duration dt) {
  if (g_rc->rec) {
    char b[64];
    std::snprintf(b, sizeof b, "src %a", dt.count());
    g_rc->rec->post_hooks.push_back(b);
  }
}

void run_rank(const Scenario& sc, RankCtx& rc, MPI_Comm comm, int nranks,
              RunMode mode, const std::vector<double>& dts) {
  switch (sc.rank) {
  case 1:
    return run_rank_1(sc, rc, comm, nranks, mode, dts);
  case 2:
    return run_rank_2(sc, rc, comm, nranks, mode, dts);
  default:
    return run_rank_3(sc, rc, comm, nranks, mode, dts);
  }
}
