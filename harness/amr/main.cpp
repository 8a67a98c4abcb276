#include "tube.hpp"

#include "mini_amrex.hpp"
#include "sim_fs.hpp"

#include "fub/AMReX/ForEachFab.hpp"
#include "fub/AMReX/output/WriteHdf5.hpp"

#include <boost/log/core.hpp>
#include <cmath>
#include <filesystem>
#include <hdf5.h>
#include <map>
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <set>
#include <sys/stat.h>

namespace py = pybind11;

void scenario_init() {
  boost::log::core::get()->set_logging_enabled(false);
  static py::scoped_interpreter interpreter{};
  static py::gil_scoped_release release{};
}

namespace amr {
namespace {
using History = std::vector<std::shared_ptr<Image>>;

void violate_on_abort() {
  ::amrex::mini_abort_hook = [](const std::string& msg) { sim::violate("abort", "AMReX aborts: %s", msg.c_str()); };
}

/// Runs the program and returns what it outputs in each cycle.
History run(const Config& c, const Machine& m, Hooks h = {}, const std::function<void(Hooks&, int rank)>& setup = {}) {
  History history;
  run_machine(m, [&](int rank) {
    Hooks mine = h;
    if (setup) {
      setup(mine, rank);
    }
    const auto user = mine.output;
    std::size_t n = 0;
    mine.output = [&, user, n](const Grid& grid) mutable {
      if (history.size() == n) {
        history.push_back(std::make_shared<Image>());
      }
      deposit(*history[n++], grid.GetPatchHierarchy(), "output");
      if (user) {
        user(grid);
      }
    };
    program(c, mine);
  });
  return history;
}

// ---------------------------------------------------------------- C24
void check_c24() {
  Config c = draw_config();
  Machine a = draw_machine(1), b = draw_machine(4);
  Config d = c;
  d.max_grid = d.blocking * (1 + static_cast<int>(sim::choose(4, "max_grid2")));
  sim::describe(c.text() + " | " + a.text() + " | grid=" + std::to_string(d.max_grid) + " " + b.text());
  Hooks h;
  h.max_cycles = c.steps;
  History one, two;
  if (sim::chance(0.4, "reject")) {
    // The second machine rejects steps, the first one repeats the accepted ones.
    struct Plan {
      int64_t at;
      int rank;
      double factor;
    };
    std::vector<Plan> plan(1 + sim::choose(3, "rejections"));
    for (Plan& p : plan) {
      p.at = static_cast<int64_t>(sim::choose(static_cast<uint64_t>(12 * c.steps * c.levels), "at"));
      p.rank = static_cast<int>(sim::choose(static_cast<uint64_t>(b.nranks), "rank"));
      p.factor = sim::uniform(0.1, 0.95, "factor");
    }
    std::vector<fub::Duration> accepted;
    two = run(d, b, h, [&](Hooks& mine, int rank) {
      auto last = std::make_shared<fub::Duration>(1e9);
      auto attempts = std::make_shared<int>(0);
      mine.attempt = [last, attempts](fub::Duration dt) { *last = dt, ++*attempts; };
      mine.stable_dt = [&, rank, last, n = int64_t{0}](int level, fub::Direction, fub::Duration dt) mutable {
        for (const Plan& p : plan) {
          if (p.at == n && p.rank == rank) {
            sim::count("fault:smaller stable step");
            sim::event("less on level %d", level);
            dt = p.factor * std::min<fub::Duration>(dt, c.subcycle ? *last / std::pow(c.ratio, level) : *last);
          }
        }
        ++n;
        return dt;
      };
      mine.output = [&, rank, last, attempts, first = true](const Grid&) mutable {
        if (!first && rank == 0) {
          accepted.push_back(*last);
          sim::count("rejected steps", *attempts - 1);
        }
        *attempts = 0;
        first = false;
      };
    });
    h.steps = accepted;
    one = run(c, a, h);
  } else {
    one = run(c, a, h);
    two = run(d, b, h);
  }
  sim::event("outputs %zu %zu hash %llx", one.size(), two.size(), (unsigned long long)hash(*one.back()));
  if (one.size() != two.size()) {
    sim::violate("different-steps", "%zu outputs against %zu", one.size(), two.size());
  }
  double mag = 0;
  for (std::size_t k = 0; k < one.size(); ++k) {
    const std::string diff = difference(*one[k], *two[k], false);
    if (!diff.empty()) {
      sim::violate("decomposition-dependent", "cycle %zu: %s", k, diff.c_str());
    }
    sim::count("levels:" + std::to_string(one[k]->levels.size()));
  }
  for (int comp = 0; c.closed() && comp < n_cons(c); ++comp) {
    if ((comp == 1 && c.bc[0][0]) || (comp == 2 && c.bc[1][0])) {
      continue; // walls take momentum
    }
    const double first = integral(*one.front(), comp, c, &mag);
    for (std::size_t k = 1; k < one.size(); ++k) {
      const double now = integral(*one[k], comp, c, nullptr);
      if (!(std::abs(now - first) <= 1e-11 * (1 + mag))) {
        sim::violate("not-conserved", "%s: %.17g at the start, %.17g after %zu cycles", comp_name(c, comp), first, now, k);
      }
    }
  }
  for (std::size_t k = 1; c.equation && k < one.size(); ++k) {
    for (std::size_t l = 0; l < one[k]->levels.size(); ++l) {
      const LevelImage& L = one[k]->levels[l];
      for (int j = L.domain.smallEnd(1); j <= L.domain.bigEnd(1); ++j) {
        for (int i = L.domain.smallEnd(0); i <= L.domain.bigEnd(0); ++i) {
          if (!L.has(i, j)) {
            continue;
          }
          const double rho = L.at(i, j, 0), mx = L.at(i, j, 1), my = L.at(i, j, 2), e = L.at(i, j, 3);
          const double p = 0.4 * (e - 0.5 * (mx * mx + my * my) / rho);
          if (!(std::abs(L.at(i, j, 4) - p) <= 1e-9 * (std::abs(p) + std::abs(e)))) {
            sim::violate("inconsistent-state", "cycle %zu, level %zu, cell (%d, %d): pressure %.17g of a state with pressure %.17g", k, l, i, j, L.at(i, j, 4), p);
          }
        }
      }
    }
  }
  if (one.back()->levels.size() > 1 && b.nranks > 1) sim::mark_nontrivial();
  sim::cover(hash(*one.back()));
}

// ---------------------------------------------------------------- C20
std::string checkpoint_name(const std::string& root, std::size_t k) { return root + "/chk" + std::to_string(k); }

void compare_tail(const History& all, const History& tail, std::size_t k, const char* what) {
  if (all.size() != k + tail.size()) {
    sim::violate("different-steps", "%s: restarted after output %zu there are %zu outputs instead of %zu", what, k, tail.size(), all.size() - k);
  }
  for (std::size_t i = 0; i < tail.size(); ++i) {
    const std::string diff = difference(*all[k + i], *tail[i], false);
    if (!diff.empty()) {
      sim::violate("restart-differs", "%s: restarted after output %zu, output %zu: %s", what, k, k + i, diff.c_str());
    }
  }
}

/// Reads a checkpoint on one rank. Empty image if that fails loudly.
std::shared_ptr<Image> probe(const Config& c, const std::string& name, std::string& error) {
  auto image = std::make_shared<Image>();
  ::amrex::mini_abort_hook = [](const std::string& msg) { throw std::runtime_error(msg); };
  Machine m;
  run_machine(m, [&](int) {
    try {
      const auto hierarchy = fub::amrex::ReadCheckpointFile(name, description(c), grid_geometry(c), hierarchy_options(c));
      deposit(*image, hierarchy, "reading a checkpoint");
    } catch (std::exception& e) {
      error = e.what();
    }
  });
  violate_on_abort();
  return error.empty() ? image : nullptr;
}

void check_c20() {
  Config c = draw_config();
  const int weather = static_cast<int>(sim::choose(4, "weather")); // restart only, crash, any fault, short and interrupted calls
  Machine a = draw_machine(3), b = draw_machine(3);
  const char* weathers[] = {"calm", "crash", "faults", "benign"};
  sim::describe(c.text() + " | " + a.text() + " | " + weathers[weather] + " | restarted " + b.text());
  const std::string root = sim::fs_enter_scratch();
  Hooks h;
  h.max_cycles = c.steps;
  // one rank might be ahead of the others by one output, but never by two
  std::vector<int> done;
  auto writes = [&](const std::string& dir) {
    return [&, dir](Hooks& mine, int) {
      std::size_t n = 0;
      mine.output = [&, dir, n](const Grid& grid) mutable {
        fub::amrex::WriteCheckpointFile(checkpoint_name(dir, n), grid.GetPatchHierarchy());
        if (done.size() <= n) {
          done.resize(n + 1, 0);
        }
        done[n++] += 1;
      };
    };
  };
  ::mkdir("ref", 0755);
  ::mkdir("out", 0755);
  ::mkdir("again", 0755);
  sim::fs_plan({}, -1, sim::current_task());
  sim::fs_enable(true);
  History all = run(c, a, h, writes("ref"));
  sim::fs_enable(false);
  const int64_t ops = sim::fs_report().ops;
  std::string from = "ref";
  std::size_t k = sim::choose(all.size(), "from");
  if (weather == 0) {
    // A checkpoint is the state it was written for.
    std::string error;
    const auto image = probe(c, checkpoint_name(from, k), error);
    if (!image) {
      sim::violate("checkpoint-unreadable", "checkpoint %zu: %s", k, error.c_str());
    }
    const std::string diff = difference(*all[k], *image);
    if (!diff.empty()) {
      sim::violate("checkpoint-differs", "checkpoint %zu: %s", k, diff.c_str());
    }
  } else {
    std::vector<sim::FsFault> faults;
    int64_t crash_at = -1;
    if (weather == 1) {
      crash_at = static_cast<int64_t>(sim::choose(static_cast<uint64_t>(ops) + 1, "crash_at"));
    } else {
      const std::size_t n = 1 + sim::choose(3, "nfaults");
      for (std::size_t i = 0; i < n; ++i) {
        sim::FsFault f{};
        f.at = static_cast<int64_t>(sim::choose(static_cast<uint64_t>(ops) + 1, "at"));
        f.kind = static_cast<sim::FsFaultKind>(weather == 3 ? 1 + sim::choose(2, "kind") : sim::choose(sim::FsKinds, "kind"));
        f.which = static_cast<int>(sim::choose(5, "errno"));
        f.sticky = sim::chance(0.4, "sticky");
        f.rank = sim::chance(0.5, "any") ? -1 : static_cast<int>(sim::choose(static_cast<uint64_t>(a.nranks), "rank"));
        faults.push_back(f);
      }
    }
    done.clear();
    static std::string loud;
    static int main_task;
    loud.clear();
    main_task = sim::current_task();
    ::amrex::mini_abort_hook = [](const std::string& msg) {
      if (sim::fs_report().hard == 0) {
        sim::violate("abort", "AMReX aborts without a hard fault: %s", msg.c_str());
      }
      loud = msg; // an abort ends all ranks
      sim::event("aborted");
      sim::crash_tasks(main_task);
    };
    sim::fs_plan(faults, crash_at, main_task);
    sim::fs_enable(true);
    static History* left = new History;
    History seen = run(c, a, h, writes("out"));
    sim::fs_enable(false);
    const sim::FsReport rep = sim::fs_report();
    violate_on_abort();
    left->insert(left->end(), seen.begin(), seen.end());
    sim::event("ops %lld hard %lld benign %lld crashed %d loud %d", (long long)rep.ops, rep.hard, rep.benign, rep.crashed, !loud.empty());
    if (!rep.crashed && loud.empty()) {
      compare_tail(all, seen, 0, "repeated");
    }
    std::size_t usable = 0;
    bool any = false;
    for (std::size_t i = 0; i < all.size(); ++i) {
      struct stat st {};
      const bool there = ::stat(checkpoint_name("out", i).c_str(), &st) == 0;
      const bool complete = i < done.size() && done[i] == a.nranks;
      if (!there && !complete) {
        continue;
      }
      std::string error;
      const auto image = probe(c, checkpoint_name("out", i), error);
      if (!image) {
        sim::count("checkpoint:rejected");
        if (complete) {
          sim::violate("checkpoint-lost", "checkpoint %zu was written on all ranks, but: %s", i, error.c_str());
        }
        continue;
      }
      const std::string diff = difference(*all[i], *image);
      if (!diff.empty()) {
        sim::violate("checkpoint-torn", "checkpoint %zu (%s) is read without an error, but is not the state it was written for: %s", i,
                     complete ? "complete" : "interrupted", diff.c_str());
      }
      sim::count(complete ? "checkpoint:complete" : "checkpoint:interrupted but whole");
      usable = i;
      any = true;
    }
    if (!any) {
      sim::cover(static_cast<uint64_t>(rep.ops));
      return;
    }
    from = "out";
    k = usable;
  }
  h.restart_from = checkpoint_name(from, k);
  done.clear();
  History tail = run(c, b, h, writes("again"));
  compare_tail(all, tail, k, "restart");
  if (sim::chance(0.4, "again")) {
    const std::size_t j = sim::choose(tail.size(), "from");
    h.restart_from = checkpoint_name("again", j);
    Machine m = draw_machine(3);
    compare_tail(tail, run(c, m, h), j, "second restart");
    sim::count("second restart");
  }
  if (all[k]->levels.size() > 1 && k > 0 && k + 1 < all.size()) {
    sim::mark_nontrivial();
  }
  sim::cover(hash(*all.back()) + k);
}

// ---------------------------------------------------------------- C21
struct Regrid {
  int base = 0;
  Image before, after;
  std::map<int, std::vector<char>> tags; // by level, over its domain
  bool tagged = false;
};

std::size_t at(const ::amrex::Box& dom, int i, int j) {
  return static_cast<std::size_t>((j - dom.smallEnd(1)) * dom.length(0) + i - dom.smallEnd(0));
}

void check_grids(const Config& c, const Image& im, const char* what) {
  for (std::size_t l = 0; l < im.levels.size(); ++l) {
    const LevelImage& L = im.levels[l];
    for (const ::amrex::Box& b : L.boxes) {
      for (int d = 0; d < 2; ++d) {
        if (l > 0 && (b.smallEnd(d) % c.blocking || (b.bigEnd(d) + 1) % c.blocking)) {
          sim::violate("not-blocked", "%s: level %zu has a box [%d, %d] in direction %d with blocking factor %d", what, l, b.smallEnd(d), b.bigEnd(d), d, c.blocking);
        }
        if (b.length(d) > c.max_grid) {
          sim::violate("box-too-large", "%s: level %zu has a box of %d cells in direction %d, allowed are %d", what, l, b.length(d), d, c.max_grid);
        }
      }
    }
    if (l == 0) {
      for (char x : L.covered) {
        if (!x) {
          sim::violate("domain-not-covered", "%s: level 0 does not cover its domain", what);
        }
      }
      continue;
    }
    const LevelImage& C = im.levels[l - 1];
    for (const ::amrex::Box& b : L.boxes) {
      const ::amrex::Box around = ::amrex::grow(::amrex::coarsen(b, c.ratio), c.n_proper) & C.domain;
      for (int j = around.smallEnd(1); j <= around.bigEnd(1); ++j) {
        for (int i = around.smallEnd(0); i <= around.bigEnd(0); ++i) {
          if (!C.has(i, j)) {
            sim::violate("not-nested", "%s: level %zu has no cell (%d, %d), which is within %d cells of level %zu", what, l - 1, i, j, c.n_proper, l);
          }
        }
      }
    }
  }
}

void check_averages(const Config& c, const Image& im, std::size_t base, const char* what) {
  for (std::size_t l = base + 1; l < im.levels.size(); ++l) {
    const LevelImage &F = im.levels[l], &C = im.levels[l - 1];
    for (int j = C.domain.smallEnd(1); j <= C.domain.bigEnd(1); ++j) {
      for (int i = C.domain.smallEnd(0); i <= C.domain.bigEnd(0); ++i) {
        if (!F.has(i * c.ratio, j * c.ratio)) {
          continue;
        }
        for (int comp = 0; comp < n_cons(c); ++comp) {
          double sum = 0, mag = 0;
          for (int y = 0; y < c.ratio; ++y) {
            for (int x = 0; x < c.ratio; ++x) {
              sum += F.at(i * c.ratio + x, j * c.ratio + y, comp);
              mag += std::abs(F.at(i * c.ratio + x, j * c.ratio + y, comp));
            }
          }
          const double mean = sum / (c.ratio * c.ratio);
          if (!(std::abs(mean - C.at(i, j, comp)) <= 1e-12 * (1e-3 + mag))) {
            sim::violate("not-averaged", "%s: cell (%d, %d) of level %zu has %s %.17g, but the finer cells have the mean %.17g", what, i, j, l - 1,
                         comp_name(c, comp), C.at(i, j, comp), mean);
          }
        }
      }
    }
  }
}

void check_regrid(const Config& c, const Regrid& r, std::size_t n) {
  char what[64];
  snprintf(what, sizeof what, "regridding %zu above level %d", n, r.base);
  const std::size_t base = static_cast<std::size_t>(r.base);
  check_grids(c, r.after, what);
  for (std::size_t l = 0; l < r.after.levels.size(); ++l) {
    const LevelImage& A = r.after.levels[l];
    const LevelImage* B = l < r.before.levels.size() ? &r.before.levels[l] : nullptr;
    if (l <= base && !B) {
      sim::violate("level-appears", "%s: level %zu is new", what, l);
    }
    if (l <= base && A.boxes != B->boxes) {
      sim::violate("base-changed", "%s: the boxes of level %zu change", what, l);
    }
    const double time = B ? B->time : r.before.levels[base].time;
    // Levels meet in time up to rounding only.
    if (std::abs(A.time - time) > 1e-12 * time || (B && A.cycles != B->cycles)) {
      sim::violate("wrong-time", "%s: level %zu has time %.17g and cycle %ld, expected time %.17g%s", what, l, A.time, A.cycles, time,
                   B ? (" and cycle " + std::to_string(B->cycles)).c_str() : "");
    }
    for (int j = A.domain.smallEnd(1); j <= A.domain.bigEnd(1); ++j) {
      for (int i = A.domain.smallEnd(0); i <= A.domain.bigEnd(0); ++i) {
        if (!A.has(i, j)) {
          continue;
        }
        const bool kept = B && B->has(i, j);
        for (int comp = 0; comp < A.ncomp; ++comp) {
          const double x = A.at(i, j, comp);
          const double y = kept ? B->at(i, j, comp) : r.after.levels[l - 1].at(i / c.ratio, j / c.ratio, comp);
          if (std::memcmp(&x, &y, sizeof x) != 0) {
            sim::violate(kept ? "kept-cell-changed" : "new-cell-wrong", "%s: level %zu, cell (%d, %d), %s is %.17g, %s has %.17g", what, l, i, j,
                         comp_name(c, comp), x, kept ? "it" : "the coarse cell", y);
          }
        }
        if (l) {
          sim::count(kept ? "cells:kept" : "cells:new");
        }
      }
    }
  }
  if (r.before.levels.size() <= base) {
    return;
  }
  // Tagged cells are refined; from level 0 nesting takes none of them away.
  for (const auto& [level, tags] : r.tags) {
    if (base != 0) {
      break;
    }
    const LevelImage& L = r.before.levels[static_cast<std::size_t>(level)];
    for (int j = L.domain.smallEnd(1); j <= L.domain.bigEnd(1); ++j) {
      for (int i = L.domain.smallEnd(0); i <= L.domain.bigEnd(0); ++i) {
        if (!tags[at(L.domain, i, j)]) {
          continue;
        }
        const std::size_t fine = static_cast<std::size_t>(level) + 1;
        if (fine >= r.after.levels.size() || !r.after.levels[fine].has(i * c.ratio, j * c.ratio)) {
          sim::violate("tag-ignored", "%s: cell (%d, %d) of level %d is tagged, but not refined", what, i, j, level);
        }
      }
    }
  }
  for (int comp = 0; comp < n_cons(c); ++comp) {
    double sum[2] = {0, 0}, mag = 0;
    const Image* ims[2] = {&r.before, &r.after};
    for (int w = 0; w < 2; ++w) {
      double vol = 1;
      for (std::size_t l = base; l < ims[w]->levels.size(); ++l, vol /= c.ratio * c.ratio) {
        const LevelImage& L = ims[w]->levels[l];
        for (int j = L.domain.smallEnd(1); j <= L.domain.bigEnd(1); ++j) {
          for (int i = L.domain.smallEnd(0); i <= L.domain.bigEnd(0); ++i) {
            if (L.has(i, j) && is_leaf(*ims[w], l, i, j, c.ratio)) {
              sum[w] += vol * L.at(i, j, comp);
              mag += vol * std::abs(L.at(i, j, comp));
            }
          }
        }
      }
    }
    if (!(std::abs(sum[0] - sum[1]) <= 1e-12 * (1 + mag))) {
      sim::violate("regrid-not-conservative", "%s: integral of %s was %.17g and becomes %.17g", what, comp_name(c, comp), sum[0], sum[1]);
    }
  }
}

void check_c21() {
  Config c = draw_config();
  if (c.levels == 1) {
    c.levels = 2;
  }
  c.steps = std::max(c.steps, 2); // the first step keeps the initial hierarchy
  Machine m = draw_machine(4);
  sim::describe(c.text() + " | " + m.text());
  Hooks h;
  h.max_cycles = c.steps;
  std::vector<std::shared_ptr<Regrid>> regrids;
  std::map<long, int> tagged_in_cycle; // calls of the tagging for level 0 on rank 0, by cycle
  History all = run(c, m, h, [&](Hooks& mine, int rank) {
    auto n = std::make_shared<std::size_t>(0);
    auto current = std::make_shared<std::shared_ptr<Regrid>>();
    mine.before_regrid = [&, n, current](fub::amrex::IntegratorContext& ctx, int level) {
      if (regrids.size() == *n) {
        regrids.push_back(std::make_shared<Regrid>());
        regrids.back()->base = level;
      }
      *current = regrids[*n];
      if ((*current)->base != level) {
        sim::violate("ranks-disagree", "one rank is about to regrid above level %d, another above level %d", (*current)->base, level);
      }
      deposit((*current)->before, ctx.GetPatchHierarchy(), "before regridding");
    };
    mine.after_regrid = [&, n, current](fub::amrex::IntegratorContext& ctx, int) {
      deposit((*current)->after, ctx.GetPatchHierarchy(), "after regridding");
      *n += 1;
      *current = nullptr;
    };
    mine.tagged = [&, rank, current](const ::amrex::TagBoxArray& tags, const Grid& grid, int level) {
      if (!*current) {
        return; // the initial hierarchy
      }
      Regrid& r = **current;
      r.tagged = true;
      const fub::amrex::PatchHierarchy& hier = grid.GetPatchHierarchy();
      if (rank == 0 && level == 0) {
        tagged_in_cycle[hier.GetCycles()] += 1;
      }
      const ::amrex::Box dom = hier.GetGeometry(level).Domain();
      std::vector<char>& all_tags = r.tags[level];
      all_tags.resize(static_cast<std::size_t>(dom.numPts()));
      for (::amrex::MFIter mfi(tags); mfi.isValid(); ++mfi) {
        const ::amrex::Box b = mfi.validbox();
        for (int j = b.smallEnd(1); j <= b.bigEnd(1); ++j) {
          for (int i = b.smallEnd(0); i <= b.bigEnd(0); ++i) {
            if (tags[mfi](::amrex::IntVect(i, j), 0)) {
              all_tags[at(dom, i, j)] = 1;
            }
          }
        }
      }
    };
  });
  for (std::size_t k = 0; k < all.size(); ++k) {
    const std::string what = "output " + std::to_string(k);
    check_grids(c, *all[k], what.c_str());
    check_averages(c, *all[k], 0, what.c_str());
    if (k > 0 && k + 1 < all.size() && static_cast<long>(k) % c.regrid_frequency == 0 && !tagged_in_cycle.count(static_cast<long>(k))) {
      sim::violate("not-regridded", "the step after cycle %zu does not regrid", k);
    }
  }
  bool interesting = false;
  for (std::size_t n = 0; n < regrids.size(); ++n) {
    check_regrid(c, *regrids[n], n);
    if (regrids[n]->tagged) {
      sim::count("regriddings");
      interesting = interesting || !difference(regrids[n]->before, regrids[n]->after, false).empty();
    }
  }
  if (interesting) {
    sim::mark_nontrivial();
  }
  sim::cover(hash(*all.back()) + regrids.size());
}

// ---------------------------------------------------------------- C22
struct Record {
  double time = 0;
  long cycle = 0;
  std::vector<double> data; // [comp][j][i]
};
struct DataFile {
  ::amrex::Box box; // of the finest possible level
  std::vector<std::string> fields;
  std::vector<Record> records;
};

/// The value at a cell of the finest possible level.
double value_at(const Image& im, int i, int j, int comp, const Config& c) {
  int ii = i, jj = j;
  for (int l = c.levels - 1;; --l, ii /= c.ratio, jj /= c.ratio) {
    if (l < static_cast<int>(im.levels.size()) && im.levels[static_cast<std::size_t>(l)].has(ii, jj)) {
      return im.levels[static_cast<std::size_t>(l)].at(ii, jj, comp);
    }
  }
}

Record record_of(const Image& im, const ::amrex::Box& box, const Config& c) {
  Record r;
  r.time = im.levels[0].time;
  r.cycle = im.levels[0].cycles;
  for (int comp = 0; comp < n_comps(c); ++comp) {
    for (int j = box.smallEnd(1); j <= box.bigEnd(1); ++j) {
      for (int i = box.smallEnd(0); i <= box.bigEnd(0); ++i) {
        r.data.push_back(value_at(im, i, j, comp, c));
      }
    }
  }
  return r;
}

/// The value a probe at x should see.
double probe_value(const Image& im, const double* x, int comp, const fub::amrex::PatchHierarchy& hier) {
  for (int l = static_cast<int>(im.levels.size()) - 1; l >= 0; --l) {
    const ::amrex::Geometry& geom = hier.GetGeometry(l);
    int at[2] = {-1, -1};
    for (int d = 0; d < 2; ++d) {
      for (int i = 0; i < geom.Domain().length(d); ++i) {
        double lo[2], hi[2];
        geom.LoNode(::amrex::IntVect(i, i), lo);
        geom.HiNode(::amrex::IntVect(i, i), hi);
        if (lo[d] <= x[d] && x[d] < hi[d]) {
          at[d] = i;
          break;
        }
      }
    }
    if (im.levels[static_cast<std::size_t>(l)].has(at[0], at[1])) {
      return im.levels[static_cast<std::size_t>(l)].at(at[0], at[1], comp);
    }
  }
  return 0;
}

void compare_file(const std::string& name, const DataFile& expected, const Config& c) {
  const hid_t file = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (file < 0) {
    sim::violate("file-unreadable", "%s cannot be opened", name.c_str());
  }
  const hid_t data = H5Dopen(file, "/data", H5P_DEFAULT), times = H5Dopen(file, "/times", H5P_DEFAULT), cycles = H5Dopen(file, "/cycles", H5P_DEFAULT);
  if (data < 0 || times < 0 || cycles < 0) {
    sim::violate("dataset-missing", "%s lacks a dataset", name.c_str());
  }
  hsize_t dims[8] = {}, ntimes = 0, ncycles = 0;
  const int rank = H5Sget_simple_extent_ndims(H5Dget_space(data));
  H5Sget_simple_extent_dims(H5Dget_space(data), dims, nullptr);
  H5Sget_simple_extent_dims(H5Dget_space(times), &ntimes, nullptr);
  H5Sget_simple_extent_dims(H5Dget_space(cycles), &ncycles, nullptr);
  const hsize_t nx = static_cast<hsize_t>(expected.box.length(0)), ny = static_cast<hsize_t>(expected.box.length(1)),
                nc = static_cast<hsize_t>(n_comps(c));
  if (rank != 4 || dims[1] != nc || dims[2] != nx || dims[3] != ny) {
    sim::violate("wrong-extents", "%s has records of %d dimensions, %llu x %llu x %llu, expected %llu x %llu x %llu", name.c_str(), rank, dims[1],
                 dims[2], dims[3], (unsigned long long)nc, (unsigned long long)nx, (unsigned long long)ny);
  }
  if (dims[0] != expected.records.size() || ntimes != dims[0] || ncycles != dims[0]) {
    sim::violate("wrong-number-of-records", "%s has %llu states, %llu times and %llu cycles, expected are %zu records", name.c_str(), dims[0], ntimes,
                 ncycles, expected.records.size());
  }
  std::vector<double> t(ntimes), x(dims[0] * nc * nx * ny);
  std::vector<int64_t> n(ncycles);
  if (H5Dread(times, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, t.data()) < 0 ||
      H5Dread(cycles, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, n.data()) < 0 ||
      H5Dread(data, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data()) < 0) {
    sim::violate("file-unreadable", "%s: a dataset cannot be read", name.c_str());
  }
  for (std::size_t k = 0; k < expected.records.size(); ++k) {
    const Record& r = expected.records[k];
    if (t[k] != r.time || n[k] != r.cycle) {
      sim::violate("wrong-time", "%s: record %zu has time %.17g and cycle %ld, expected time %.17g and cycle %ld", name.c_str(), k, t[k],
                   static_cast<long>(n[k]), r.time, r.cycle);
    }
    for (std::size_t q = 0; q < r.data.size(); ++q) {
      if (!(x[k * r.data.size() + q] == r.data[q])) { // signs of zeros get lost
        sim::violate("wrong-record", "%s: record %zu, component %zu, row %zu, column %zu of %zu x %zu is %.17g, the state has %.17g", name.c_str(), k,
                     q / (nx * ny), q / nx % ny, q % nx, static_cast<std::size_t>(ny), static_cast<std::size_t>(nx), x[k * r.data.size() + q],
                     r.data[q]);
      }
    }
  }
  double lower[2] = {}, dx[2] = {};
  const hid_t xlower = H5Aopen(data, "xlower", H5P_DEFAULT), cell_size = H5Aopen(data, "cell_size", H5P_DEFAULT);
  if (xlower < 0 || cell_size < 0 || H5Aread(xlower, H5T_NATIVE_DOUBLE, lower) < 0 || H5Aread(cell_size, H5T_NATIVE_DOUBLE, dx) < 0) {
    sim::violate("attribute-missing", "%s lacks its lower corner or its cell sizes", name.c_str());
  }
  for (int d = 0; d < 2; ++d) {
    const double h = (d ? c.ly / c.ny : c.lx / c.nx) / std::pow(c.ratio, c.levels - 1);
    const double lo = (d ? 0.0 : -0.5 * c.lx) + h * expected.box.smallEnd(d);
    if (!(std::abs(dx[d] - h) <= 1e-12 * h) || !(std::abs(lower[d] - lo) <= 1e-12)) {
      sim::violate("wrong-geometry", "%s: in direction %d it starts at %.17g with cells of %.17g, expected %.17g and %.17g", name.c_str(), d, lower[d],
                   dx[d], lo, h);
    }
  }
  if (!expected.fields.empty()) {
    const hid_t fields = H5Dopen(file, "/fields", H5P_DEFAULT);
    std::vector<char*> names(expected.fields.size());
    const hid_t type = H5Tcopy(H5T_C_S1);
    H5Tset_size(type, H5T_VARIABLE);
    if (fields < 0 || H5Sget_simple_extent_npoints(H5Dget_space(fields)) != static_cast<hssize_t>(names.size()) ||
        H5Dread(fields, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, names.data()) < 0) {
      sim::violate("fields-missing", "%s lacks its %zu field names", name.c_str(), names.size());
    }
    for (std::size_t i = 0; i < names.size(); ++i) {
      if (expected.fields[i] != names[i]) {
        sim::violate("wrong-field", "%s: field %zu is named %s instead of %s", name.c_str(), i, names[i], expected.fields[i].c_str());
      }
    }
  }
  H5close();
}

void check_c22() {
  Config c = draw_config();
  c.steps = std::min(c.steps, 4);
  ::amrex::Box whole(::amrex::IntVect(0, 0), ::amrex::IntVect(c.nx - 1, c.ny - 1));
  for (int l = 1; l < c.levels; ++l) {
    whole.refine(c.ratio);
  }
  struct Out {
    std::string path;
    ::amrex::Box box;
    bool restricted = false, appends = false;
    std::vector<std::ptrdiff_t> freqs;
    std::vector<std::string> fields;
  };
  std::vector<Out> outs(1 + sim::choose(2, "outputs"));
  const char* places[] = {"a.h5", "data/b.h5", "x/y/c.h5"};
  for (std::size_t i = 0; i < outs.size(); ++i) {
    Out& o = outs[i];
    o.path = std::to_string(i) + places[sim::choose(3, "path")];
    o.box = whole;
    o.appends = sim::chance(0.2, "appends");
    o.restricted = !o.appends && sim::chance(0.4, "box");
    if (o.restricted) {
      for (int d = 0; d < 2; ++d) {
        const int n = whole.length(d);
        const int lo = static_cast<int>(sim::choose(static_cast<uint64_t>(n), "lo"));
        const int hi = lo + static_cast<int>(sim::choose(static_cast<uint64_t>(n - lo), "hi"));
        o.box.setSmall(d, lo);
        o.box.setBig(d, hi);
      }
    }
    for (std::size_t k = 1 + sim::choose(2, "freqs"); k > 0; --k) {
      o.freqs.push_back(static_cast<std::ptrdiff_t>(1 + sim::choose(3, "frequency")));
    }
    for (int k = 0; !o.appends && k < n_comps(c) && sim::chance(0.7, "field"); ++k) {
      o.fields.push_back(comp_name(c, k));
    }
  }
  struct Point {
    double x[2];
  };
  std::vector<Point> points(1 + sim::choose(4, "points"));
  for (Point& p : points) {
    for (int d = 0; d < 2; ++d) {
      const double n = whole.length(d), at = static_cast<double>(sim::choose(static_cast<uint64_t>(n), "point"));
      const double off = sim::chance(0.3, "on face") ? 0.0 : sim::uniform(0.01, 0.99, "off");
      p.x[d] = d ? (at + off) / n * c.ly : -0.5 * c.lx + (at + off) / n * c.lx;
    }
  }
  const std::string root = sim::fs_enter_scratch();
  std::map<std::string, DataFile> files; // what should be there
  std::set<std::string> others;          // directories in the way
  sim::set_switch_hooks({[]() -> void* { return PyGILState_Check() ? PyEval_SaveThread() : nullptr; },
                         [](void* p) {
                           if (p) {
                             PyEval_RestoreThread(static_cast<PyThreadState*>(p));
                           }
                         }});
  for (const Out& o : outs) {
    if (sim::chance(0.1, "obstacle")) {
      std::filesystem::create_directories(o.path);
      others.insert(o.path);
    }
  }
  const int starts = 1 + static_cast<int>(sim::choose(3, "starts"));
  std::string desc = c.text();
  for (int s = 0; s < starts; ++s) {
    Machine m = draw_machine(4);
    const bool crash = sim::chance(0.3, "crash");
    std::size_t crash_after = crash ? sim::choose(static_cast<uint64_t>(c.steps) + 1, "crash_after") : 1000;
    desc += " | " + m.text() + (crash ? " crash after " + std::to_string(crash_after) : "");
    sim::describe(desc);
    std::vector<sim::FsFault> faults(sim::choose(3, "nfaults"));
    for (sim::FsFault& f : faults) {
      f = {};
      f.at = static_cast<int64_t>(sim::choose(200, "at"));
      f.kind = static_cast<sim::FsFaultKind>(1 + sim::choose(2, "kind"));
      f.sticky = sim::chance(0.4, "sticky");
      f.rank = -1;
    }
    // Where the outputs go
    std::vector<DataFile*> targets;
    for (const Out& o : outs) {
      std::string name = o.path;
      if (!o.appends && (files.count(name) || others.count(name))) {
        std::string other;
        for (int k = 1; other.empty() || files.count(other) || others.count(other); ++k) {
          other = o.path + "." + std::to_string(k);
        }
        if (others.count(name)) {
          name = other;
        } else {
          files[other] = files[name];
          files.erase(name);
        }
      }
      if (others.count(name)) { // an output which appends has nowhere to go
        targets.push_back(nullptr);
        continue;
      }
      DataFile& f = files[name];
      f.box = o.box;
      if (f.records.empty()) {
        f.fields = o.fields;
      }
      targets.push_back(&f);
    }
    const int main_task = sim::current_task();
    Hooks h;
    h.max_cycles = c.steps;
    sim::fs_plan(faults, -1, main_task);
    sim::fs_enable(true);
    std::size_t finished = 0;
    History* seen = new History; // outlives a crash
    run_machine(m, [&](int rank) {
      Hooks mine = h;
      std::vector<std::shared_ptr<fub::amrex::WriteHdf5>> writers;
      {
        py::gil_scoped_acquire gil;
        for (const Out& o : outs) {
          if (o.appends) {
            writers.push_back(std::make_shared<fub::amrex::WriteHdf5>(o.path, o.freqs));
            continue;
          }
          fub::ProgramOptions po;
          po["path"] = py::cast(o.path);
          po["frequencies"] = py::cast(o.freqs);
          if (o.restricted) {
            py::dict box;
            box["lower"] = py::cast(std::array<int, 2>{o.box.smallEnd(0), o.box.smallEnd(1)});
            box["upper"] = py::cast(std::array<int, 2>{o.box.bigEnd(0), o.box.bigEnd(1)});
            po["box"] = box;
          }
          writers.push_back(std::make_shared<fub::amrex::WriteHdf5>(po, o.fields));
        }
      }
      std::size_t n = 0;
      mine.output = [&, rank](const Grid& grid) {
        if (seen->size() == n) {
          seen->push_back(std::make_shared<Image>());
        }
        Image& im = *(*seen)[n++];
        deposit(im, grid.GetPatchHierarchy(), "output");
        for (auto& w : writers) {
          if (w->ShallOutputNow(grid)) {
            (*w)(grid);
          }
        }
        std::vector<double> xs;
        for (int d = 0; d < 2; ++d) { // the last index of the view is the fastest one
          for (const Point& p : points) {
            xs.push_back(p.x[d]);
          }
        }
        const int np = static_cast<int>(points.size());
        const fub::basic_mdspan<const double, fub::extents<2, fub::dynamic_extent>> view(xs.data(), np);
        const std::vector<double> y = fub::amrex::GatherStates(grid.GetPatchHierarchy(), view, ::amrex::ParallelContext::CommunicatorAll());
        for (int k = 0; k < np; ++k) {
          for (int comp = 0; comp < n_comps(c); ++comp) {
            const double want = probe_value(im, points[static_cast<std::size_t>(k)].x, comp, grid.GetPatchHierarchy());
            const double got = y[static_cast<std::size_t>(comp * np + k)];
            if (!(want == got)) {
              sim::violate("wrong-probe", "output %zu, rank %d: the point (%.17g, %.17g) has %s %.17g, but %.17g was gathered", n - 1, rank,
                           points[static_cast<std::size_t>(k)].x[0], points[static_cast<std::size_t>(k)].x[1], comp_name(c, comp), want, got);
            }
          }
        }
        if (rank == 0) {
          finished = n;
          if (n - 1 == crash_after) {
            sim::count("fault:crash between outputs");
            sim::event("crash");
            sim::crash_tasks(main_task);
          }
        }
      };
      program(c, mine);
    });
    sim::fs_enable(false);
    for (std::size_t i = 0; i < outs.size(); ++i) {
      if (!targets[i]) {
        continue;
      }
      for (std::size_t k = 0; k < finished; ++k) {
        const Image& im = *(*seen)[k];
        const long cycle = im.levels[0].cycles;
        if (std::any_of(outs[i].freqs.begin(), outs[i].freqs.end(), [&](std::ptrdiff_t f) { return cycle % f == 0; })) {
          targets[i]->records.push_back(record_of(im, outs[i].box, c));
          sim::count("records");
        }
      }
    }
    for (const auto& [name, file] : files) {
      if (!file.records.empty()) {
        compare_file(name, file, c);
      }
    }
    bool varied = false;
    for (std::size_t k = 1; k < finished; ++k) {
      varied = varied || (*seen)[k]->levels.size() != (*seen)[0]->levels.size();
    }
    if (varied) {
      sim::count("number of levels changes");
    }
    if (finished > 1 && (*seen)[finished - 1]->levels.size() > 1) {
      sim::mark_nontrivial();
    }
    if (finished) {
      sim::cover(hash(*(*seen)[finished - 1]) + finished);
    }
  }
}
} // namespace
} // namespace amr

void scenario_run(const std::string& prop) {
  amr::violate_on_abort();
  if (prop == "C20") {
    amr::check_c20();
  } else if (prop == "C21") {
    amr::check_c21();
  } else if (prop == "C22") {
    amr::check_c22();
  } else if (prop == "C23") {
    amr::check_c23();
  } else if (prop == "C24") {
    amr::check_c24();
  } else {
    sim::harness_error("unknown property %s", prop.c_str());
  }
}
