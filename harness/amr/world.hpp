// C20-C24: the AMReX side of the solver on 1-4 simulated ranks, over the
// AMReX stand-in in harness/amr/amrex.
#pragma once
#include "sim.hpp"

#include "fub/AMReX/GriddingAlgorithm.hpp"
#include "fub/AMReX/IntegratorContext.hpp"
#include "fub/AMReX/PatchHierarchy.hpp"
#include "fub/output/BasicOutput.hpp"

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace amr {
/// What the user asks for. Nothing in here may be changed by the number of
/// ranks, the decomposition or the schedule.
struct Config {
  int equation = 0; // 0: advection, 1: perfect gas
  int flux = 0;     // 0: first order, 1: MUSCL-Hancock
  int split = 0;    // 0: Godunov, 1: Strang
  bool subcycle = true;
  bool simd = false;
  int nx = 16, ny = 16;
  double lx = 1.0, ly = 1.0;
  int levels = 1;
  int max_grid = 16, blocking = 8;
  int n_error_buf = 0, n_proper = 1;
  double grid_eff = 0.7;
  int bc[2][2] = {{0, 0}, {0, 0}}; // [direction][side] 0: periodic, 1: reflective, 2: transmissive
  int bc_order = 0;
  int tag = 0;        // 0: gradient + buffer, 1: gradient, 2: fixed box, 3: moving box
  double tol = 0.05;
  int buffer = 1;
  int steps = 3;
  double cfl = 0.7;
  uint64_t data = 1;
  double velocity[2] = {1.0, 0.5};
  double amplitude = 1.0;
  int ratio = 2;
  int regrid_frequency = 1;
  bool tube = false; // one cell in the second direction, which is never refined
  int ratio_of(int dir) const { return tube && dir ? 1 : ratio; }
  bool closed() const { return bc[0][0] != 2 && bc[0][1] != 2 && bc[1][0] != 2 && bc[1][1] != 2; }
  std::string text() const;
};
/// What must not matter.
struct Machine {
  int nranks = 1;
  int fill = 0;
  int dm = 0;
  std::string text() const;
};
Config draw_config();
Machine draw_machine(int max_ranks);

/// One level as all ranks together hold it.
struct LevelImage {
  std::vector<::amrex::Box> boxes;
  double time = 0;
  long cycles = 0;
  ::amrex::Box domain;
  int ncomp = 0;
  std::vector<double> data;  // [comp][j][i]
  std::vector<char> covered; // [j][i]: 1 if a box has the cell
  double at(int i, int j, int c) const;
  bool has(int i, int j) const;
};
struct Image {
  std::vector<LevelImage> levels;
  int deposits = 0;
};
/// Adds this rank's part; called by every rank with the same image.
void deposit(Image& image, const fub::amrex::PatchHierarchy& hierarchy, const char* what);
/// Empty if equal; otherwise the first difference.
std::string difference(const Image& a, const Image& b, bool boxes = true, bool meta = true);
/// Is the cell of this level not covered by a finer one?
bool is_leaf(const Image& im, std::size_t level, int i, int j, int ratio);
/// Integral of a component over the composite grid.
double integral(const Image& im, int comp, const Config& c, double* magnitude);
uint64_t hash(const Image& im);

using Grid = fub::amrex::GriddingAlgorithm;
/// Everything the harness wants to see of a program on one rank.
struct Hooks {
  std::function<void(const Grid&)> output;          // the user's output, each cycle
  std::vector<std::shared_ptr<fub::BasicOutput<Grid>>> outputs;
  std::function<void(fub::amrex::IntegratorContext&, int level)> before_regrid, after_regrid;
  std::function<void(const ::amrex::TagBoxArray&, const Grid&, int level)> tagged;
  std::function<void(fub::amrex::IntegratorContext&)> before_step; // may throw to stop
  std::function<fub::Duration(int level, fub::Direction dir, fub::Duration dt)> stable_dt; // may report less
  std::function<void(fub::Duration dt)> attempt; // a step is about to be taken
  std::vector<fub::Duration> steps;              // if not empty: take these steps
  std::string restart_from; // checkpoint directory, or empty
  long max_cycles = 3;
  bool run_simulation = true;
};
/// The program of one rank, as in the repository's examples.
void program(const Config& c, const Hooks& h);
fub::amrex::PatchHierarchyOptions hierarchy_options(const Config& c);
fub::amrex::CartesianGridGeometry grid_geometry(const Config& c);
fub::amrex::DataDescription description(const Config& c);
/// Number of conservative components and of all components.
int n_cons(const Config& c);
int n_comps(const Config& c);
const char* comp_name(const Config& c, int comp);

/// Runs body on all ranks of a fresh machine and waits for them.
void run_machine(const Machine& m, const std::function<void(int)>& body);
} // namespace amr
