#include "world.hpp"

#include "mini_amrex.hpp"
#include <cmath>
#include <sstream>

namespace amr {
std::string Config::text() const {
  std::ostringstream o;
  const char* bcs[] = {"periodic", "reflective", "transmissive"};
  const char* tags[] = {"gradient+buffer", "gradient", "box", "moving"};
  o << (equation ? "gas" : "advection") << (flux ? " muscl" : " godunov") << (simd ? " simd" : "") << (split ? " strang" : " split")
    << (subcycle ? " subcycled" : "") << ' ' << nx << 'x' << ny << " levels=" << levels << " ratio=" << ratio << " grid=" << max_grid << '/' << blocking
    << " bc=" << bcs[bc[0][0]] << '-' << bcs[bc[0][1]] << ',' << bcs[bc[1][0]] << '-' << bcs[bc[1][1]] << '#' << bc_order
    << " regrid=" << regrid_frequency << " tag=" << tags[tag] << ' ' << tol << " buf=" << buffer << ',' << n_error_buf
    << " proper=" << n_proper << " eff=" << grid_eff << " steps=" << steps << " cfl=" << cfl << " v=" << velocity[0] << ',' << velocity[1]
    << " amp=" << amplitude << " data=" << data;
  return o.str();
}
std::string Machine::text() const {
  return "ranks=" + std::to_string(nranks) + " fresh=" + std::to_string(fill) + " dm=" + std::to_string(dm);
}

Config draw_config() {
  Config c;
  c.equation = static_cast<int>(sim::choose(2, "equation"));
  c.flux = static_cast<int>(sim::choose(2, "flux"));
  c.split = static_cast<int>(sim::choose(2, "split"));
  c.subcycle = !sim::chance(0.3, "nosubcycle");
  c.simd = sim::chance(0.5, "simd");
  c.levels = 1 + static_cast<int>(sim::choose(4, "levels"));
  if (c.levels == 4 && !sim::chance(0.3, "deep")) {
    c.levels = 3;
  }
  c.blocking = c.flux ? 8 : (sim::chance(0.5, "blocking") ? 4 : 8);
  const int blocks[] = {2, 3, 4};
  c.nx = 8 * blocks[sim::choose(c.levels > 2 ? 2 : 3, "nx")];
  c.ny = 8 * blocks[sim::choose(c.levels > 2 ? 2 : 3, "ny")];
  c.lx = sim::chance(0.3, "lx") ? 1.7 : 1.0;
  c.ly = sim::chance(0.3, "ly") ? 0.6 : 1.0;
  c.max_grid = c.blocking * (1 + static_cast<int>(sim::choose(4, "max_grid")));
  c.n_error_buf = static_cast<int>(sim::choose(3, "n_error_buf"));
  c.n_proper = 1 + static_cast<int>(sim::choose(2, "n_proper"));
  c.grid_eff = sim::chance(0.5, "eff") ? 0.7 : sim::uniform(0.3, 0.99, "eff");
  for (int d = 0; d < 2; ++d) {
    const int wall = c.equation ? 1 : 2;
    switch (sim::choose(4, "bc")) {
    case 1: c.bc[d][0] = c.bc[d][1] = wall; break;
    case 2: c.bc[d][0] = c.bc[d][1] = 2; break;
    case 3: c.bc[d][0] = wall; c.bc[d][1] = 2; break;
    default: break;
    }
  }
  c.bc_order = static_cast<int>(sim::choose(4, "bc_order"));
  c.regrid_frequency = sim::chance(0.3, "regrid_frequency") ? 2 + static_cast<int>(sim::choose(2, "regrid_frequency")) : 1;
  if (c.levels == 2 && sim::chance(0.3, "ratio")) {
    c.ratio = 4;
  }
  c.tag = static_cast<int>(sim::choose(4, "tag"));
  c.tol = sim::chance(0.5, "tol") ? 0.05 : sim::uniform(0.01, 0.4, "tol");
  c.buffer = 1 + static_cast<int>(sim::choose(4, "buffer"));
  if (c.tag == 0) {
    // TagBuffer reaches across boxes only as far as the tags have ghost cells.
    c.n_error_buf = std::max(1, c.n_error_buf);
    c.buffer = std::min(c.buffer, c.n_error_buf);
  }
  c.steps = 1 + static_cast<int>(sim::choose(sim::info().tier == "quick" ? 4 : 7, "steps"));
  c.cfl = sim::uniform(0.3, c.flux ? 0.5 : 0.9, "cfl");
  if (c.levels == 4) { // simulated time is short, real time is not
    c.nx = c.ny = 16;
    c.max_grid = std::max(c.max_grid, 16);
    c.steps = std::min(c.steps, 3);
  }
  c.data = sim::choose(1u << 16, "data");
  c.velocity[0] = sim::chance(0.2, "vx0") ? 0.0 : sim::uniform(-1.0, 1.0, "vx");
  c.velocity[1] = sim::chance(0.2, "vy0") ? 0.0 : sim::uniform(-1.0, 1.0, "vy");
  if (c.velocity[0] == 0.0 && c.velocity[1] == 0.0) {
    c.velocity[0] = 1.0;
  }
  c.amplitude = sim::chance(0.1, "uniform") ? 0.0 : sim::uniform(0.2, 2.0, "amplitude");
  return c;
}

Machine draw_machine(int max_ranks) {
  Machine m;
  m.nranks = 1 + static_cast<int>(sim::choose(static_cast<uint64_t>(max_ranks), "ranks"));
  m.fill = static_cast<int>(sim::choose(3, "fresh"));
  m.dm = static_cast<int>(sim::choose(4, "dm"));
  return m;
}

void run_machine(const Machine& m, const std::function<void(int)>& body) {
  ::amrex::mini_config().fill = m.fill;
  if (m.fill) {
    sim::count(m.fill == 1 ? "fault:fresh memory is NaN" : "fault:fresh memory is garbage");
  }
  ::amrex::mini_config().dm_strategy = m.dm;
  sim::mpi_init(m.nranks);
  std::vector<int> tasks;
  for (int r = 0; r < m.nranks; ++r) {
    tasks.push_back(sim::spawn("rank" + std::to_string(r), r, [r, &body] {
      ::amrex::Geometry::ResetDefault();
      body(r);
    }));
  }
  sim::join(tasks);
}

// ---------------------------------------------------------------- images
bool LevelImage::has(int i, int j) const {
  return domain.contains(::amrex::IntVect(i, j)) &&
         covered[static_cast<std::size_t>((j - domain.smallEnd(1)) * domain.length(0) + i - domain.smallEnd(0))];
}
double LevelImage::at(int i, int j, int c) const {
  return data[static_cast<std::size_t>((c * domain.length(1) + j - domain.smallEnd(1)) * domain.length(0) + i - domain.smallEnd(0))];
}

void deposit(Image& im, const fub::amrex::PatchHierarchy& h, const char* what) {
  const std::size_t n = static_cast<std::size_t>(h.GetNumberOfLevels());
  if (im.deposits++ == 0) {
    im.levels.resize(n);
    for (std::size_t l = 0; l < n; ++l) {
      LevelImage& L = im.levels[l];
      const fub::amrex::PatchLevel& pl = h.GetPatchLevel(static_cast<int>(l));
      L.domain = h.GetGeometry(static_cast<int>(l)).Domain();
      L.time = pl.time_point.count();
      L.cycles = pl.cycles;
      L.ncomp = pl.data.nComp();
      for (int k = 0; k < pl.box_array.size(); ++k) {
        L.boxes.push_back(pl.box_array[k]);
      }
      const std::size_t cells = static_cast<std::size_t>(L.domain.numPts());
      L.data.assign(cells * static_cast<std::size_t>(L.ncomp), 0.0);
      L.covered.assign(cells, 0);
    }
  }
  if (im.levels.size() != n) {
    sim::violate("ranks-disagree", "%s: rank %d has %zu levels, another rank %zu", what, sim::current_rank(), n, im.levels.size());
  }
  for (std::size_t l = 0; l < n; ++l) {
    LevelImage& L = im.levels[l];
    const fub::amrex::PatchLevel& pl = h.GetPatchLevel(static_cast<int>(l));
    bool same = pl.time_point.count() == L.time && pl.cycles == L.cycles && pl.data.nComp() == L.ncomp &&
                static_cast<std::size_t>(pl.box_array.size()) == L.boxes.size();
    for (std::size_t k = 0; same && k < L.boxes.size(); ++k) {
      same = pl.box_array[static_cast<int>(k)] == L.boxes[k] && pl.data.boxArray()[static_cast<int>(k)] == L.boxes[k];
    }
    if (!same) {
      sim::violate("ranks-disagree", "%s: level %zu of rank %d (time %.17g, cycle %ld, %ld boxes) is not that of another rank (time %.17g, cycle %ld, %zu boxes)",
                   what, l, sim::current_rank(), pl.time_point.count(), static_cast<long>(pl.cycles), static_cast<long>(pl.box_array.size()), L.time,
                   L.cycles, L.boxes.size());
    }
    for (::amrex::MFIter mfi(pl.data); mfi.isValid(); ++mfi) {
      const ::amrex::Box b = mfi.validbox();
      const ::amrex::FArrayBox& fab = pl.data[mfi];
      for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j) {
        for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) {
          if (!L.domain.contains(::amrex::IntVect(i, j))) {
            sim::violate("box-outside-domain", "%s: level %zu has a cell (%d, %d) outside of its domain", what, l, i, j);
          }
          const std::size_t at = static_cast<std::size_t>((j - L.domain.smallEnd(1)) * L.domain.length(0) + i - L.domain.smallEnd(0));
          if (L.covered[at]++) {
            sim::violate("boxes-overlap", "%s: cell (%d, %d) of level %zu is in two boxes", what, i, j, l);
          }
          for (int c = 0; c < L.ncomp; ++c) {
            L.data[static_cast<std::size_t>(c) * L.covered.size() + at] = fab(::amrex::IntVect(i, j), c);
          }
        }
      }
    }
  }
}

std::string difference(const Image& a, const Image& b, bool boxes, bool meta) {
  char s[400];
  if (a.levels.size() != b.levels.size()) {
    snprintf(s, sizeof s, "%zu levels against %zu", a.levels.size(), b.levels.size());
    return s;
  }
  for (std::size_t l = 0; l < a.levels.size(); ++l) {
    const LevelImage &A = a.levels[l], &B = b.levels[l];
    if (meta && (A.time != B.time || A.cycles != B.cycles)) {
      snprintf(s, sizeof s, "level %zu: time %.17g cycle %ld against time %.17g cycle %ld", l, A.time, A.cycles, B.time, B.cycles);
      return s;
    }
    if (A.covered != B.covered || (boxes && A.boxes != B.boxes)) {
      snprintf(s, sizeof s, "level %zu: different boxes (%zu against %zu)%s", l, A.boxes.size(), B.boxes.size(),
               A.covered == B.covered ? "" : " covering different cells");
      return s;
    }
    for (int c = 0; c < A.ncomp; ++c) {
      for (int j = A.domain.smallEnd(1); j <= A.domain.bigEnd(1); ++j) {
        for (int i = A.domain.smallEnd(0); i <= A.domain.bigEnd(0); ++i) {
          const double x = A.at(i, j, c), y = B.at(i, j, c);
          if (std::memcmp(&x, &y, sizeof x) != 0) {
            snprintf(s, sizeof s, "level %zu, cell (%d, %d), component %d: %.17g against %.17g", l, i, j, c, x, y);
            return s;
          }
        }
      }
    }
  }
  return "";
}

bool is_leaf(const Image& im, std::size_t level, int i, int j, int ratio) {
  return level + 1 >= im.levels.size() || !im.levels[level + 1].has(i * ratio, j * ratio);
}

double integral(const Image& im, int comp, const Config& c, double* magnitude) {
  double sum = 0, mag = 0;
  double vol = c.lx / c.nx * c.ly / c.ny;
  for (std::size_t l = 0; l < im.levels.size(); ++l, vol /= c.ratio * c.ratio_of(1)) {
    const LevelImage& L = im.levels[l];
    for (int j = L.domain.smallEnd(1); j <= L.domain.bigEnd(1); ++j) {
      for (int i = L.domain.smallEnd(0); i <= L.domain.bigEnd(0); ++i) {
        if (L.has(i, j) && is_leaf(im, l, i, j, c.ratio)) {
          sum += vol * L.at(i, j, comp);
          mag += vol * std::abs(L.at(i, j, comp));
        }
      }
    }
  }
  if (magnitude) {
    *magnitude = mag;
  }
  return sum;
}

uint64_t hash(const Image& im) {
  uint64_t h = 1469598103934665603ull;
  for (const LevelImage& L : im.levels) {
    h = sim::hash_of(L.time, h);
    h = sim::hash_of(L.cycles, h);
    h = sim::hash_bytes(L.covered.data(), L.covered.size(), h);
    h = sim::hash_bytes(L.data.data(), L.data.size() * sizeof(double), h);
  }
  return h;
}

// ---------------------------------------------------------------- options
fub::amrex::PatchHierarchyOptions hierarchy_options(const Config& c) {
  fub::amrex::PatchHierarchyOptions o;
  o.max_number_of_levels = c.levels;
  o.refine_ratio = ::amrex::IntVect(c.ratio, c.ratio_of(1));
  o.blocking_factor = ::amrex::IntVect(c.blocking, c.tube ? 1 : c.blocking);
  o.max_grid_size = ::amrex::IntVect(c.max_grid, c.tube ? 1 : c.max_grid);
  o.n_error_buf = ::amrex::IntVect(c.n_error_buf, c.tube ? 0 : c.n_error_buf);
  o.grid_efficiency = c.grid_eff;
  o.n_proper = c.n_proper;
  return o;
}
fub::amrex::CartesianGridGeometry grid_geometry(const Config& c) {
  fub::amrex::CartesianGridGeometry g;
  g.cell_dimensions = {c.nx, c.ny};
  g.coordinates = ::amrex::RealBox(std::array<double, 2>{-0.5 * c.lx, 0.0}, std::array<double, 2>{0.5 * c.lx, c.ly});
  g.periodicity = {c.bc[0][0] == 0, c.bc[1][0] == 0};
  return g;
}
int n_cons(const Config& c) { return c.equation ? 4 : 1; }
int n_comps(const Config& c) { return c.equation ? 6 : 1; }
const char* comp_name(const Config& c, int comp) {
  static const char* gas[] = {"density", "momentum x", "momentum y", "energy", "pressure", "speed of sound"};
  return c.equation ? gas[comp] : "mass";
}
} // namespace amr
