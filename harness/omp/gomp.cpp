// OpenMP's runtime on simulated threads: a parallel region is a team of
// simulator tasks. Replaces libgomp.
#include "omp/gomp.hpp"
#include "sim.hpp"

#include <climits>
#include <map>
#include <memory>
#include <vector>

namespace omp {
namespace {
struct Team {
  int size = 1;
  int waiting = 0;
  long generation = 0;
  long next = 0, end = 0, incr = 1, chunk = 1; // of the current loop
  std::vector<long> loops;                     // loops entered, per thread
  long loop_no = 0;
  bool single_taken = false;
  long single_no = 0;
  std::vector<long> singles;
};
int max_threads = 1;
double gap = 0;
thread_local Team* team = nullptr;
std::map<void*, bool> locked;

void lock(void* m, const char* what) {
  sim::block_until([m] { return !locked[m]; }, what);
  locked[m] = true;
}
} // namespace

void set_threads(int n, double access_gap) {
  max_threads = n;
  gap = access_gap;
}

void team_region(int n, const std::function<void()>& fn) {
  if (team != nullptr) { // nested: serialised, as with OpenMP's defaults
    Team inner;
    inner.loops.assign(1, 0);
    inner.singles.assign(1, 0);
    Team* outer = team;
    const int num = sim::current_thread_num(), size = sim::current_team_size();
    team = &inner;
    sim::set_current_team(0, 1);
    fn();
    sim::set_current_team(num, size);
    team = outer;
    return;
  }
  if (n <= 0 || n > max_threads) {
    n = max_threads;
  }
  auto t = std::make_shared<Team>();
  t->size = n;
  t->loops.assign(static_cast<std::size_t>(n), 0);
  t->singles.assign(static_cast<std::size_t>(n), 0);
  std::vector<int> tasks;
  const auto member = [t, &fn] {
    team = t.get();
    if (gap > 0) {
      sim::enable_access_preemption(gap, 100);
    }
    fn();
    sim::disable_access_preemption();
    team = nullptr;
  };
  for (int i = 1; i < n; ++i) {
    tasks.push_back(sim::spawn("thread " + std::to_string(i), sim::current_rank(), member, i, n));
  }
  sim::set_current_team(0, n);
  member();
  sim::join(tasks);
  sim::set_current_team(0, 1);
}

} // namespace omp

using omp::team;

extern "C" {
int omp_get_thread_num() { return sim::active() ? sim::current_thread_num() : 0; }
int omp_get_num_threads() { return team ? team->size : 1; }
int omp_get_max_threads() { return omp::max_threads; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return team && team->size > 1; }
int omp_get_level() { return team ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_num_threads(int n) { omp::max_threads = n < 1 ? 1 : n; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return static_cast<double>(sim::now_ns()) * 1e-9; }
void omp_init_lock(void** l) { omp::locked[l] = false; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { omp::lock(l, "lock"); }
void omp_unset_lock(void** l) { omp::locked[l] = false; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  omp::team_region(static_cast<int>(n), [fn, data] { fn(data); });
}
void GOMP_barrier() {
  if (!team || team->size == 1) {
    return;
  }
  omp::Team* t = team;
  const long gen = t->generation;
  if (++t->waiting == t->size) {
    t->waiting = 0;
    ++t->generation;
    sim::yield("barrier");
  } else {
    sim::block_until([t, gen] { return t->generation != gen; }, "barrier");
  }
}
static int critical_default;
void GOMP_critical_start() { omp::lock(&critical_default, "critical"); }
void GOMP_critical_end() { omp::locked[&critical_default] = false; }
void GOMP_critical_name_start(void** p) { omp::lock(p, "critical"); }
void GOMP_critical_name_end(void** p) { omp::locked[p] = false; }
static int atomic_default;
void GOMP_atomic_start() { omp::lock(&atomic_default, "atomic"); }
void GOMP_atomic_end() { omp::locked[&atomic_default] = false; }
bool GOMP_single_start() {
  if (!team) {
    return true;
  }
  auto& mine = team->singles[static_cast<std::size_t>(sim::current_thread_num())];
  if (mine++ == team->single_no) {
    ++team->single_no;
    return true;
  }
  return false;
}
bool GOMP_loop_dynamic_next(long* b, long* e) {
  omp::Team* t = team;
  sim::yield("loop");
  const bool up = t->incr > 0;
  if (up ? t->next >= t->end : t->next <= t->end) {
    return false;
  }
  *b = t->next;
  t->next += t->incr * t->chunk;
  if (up ? t->next > t->end : t->next < t->end) {
    t->next = t->end;
  }
  *e = t->next;
  return true;
}
bool GOMP_loop_dynamic_start(long b, long e, long incr, long chunk, long* ib, long* ie) {
  static thread_local omp::Team lone;
  if (!team) {
    lone = omp::Team();
    lone.loops.assign(1, 0);
    *ib = b;
    *ie = e;
    return incr > 0 ? b < e : b > e;
  }
  auto& mine = team->loops[static_cast<std::size_t>(sim::current_thread_num())];
  if (mine++ == team->loop_no) {
    ++team->loop_no;
    team->next = b;
    team->end = e;
    team->incr = incr;
    team->chunk = chunk < 1 ? 1 : chunk;
  }
  return GOMP_loop_dynamic_next(ib, ie);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long b, long e, long i, long c, long* ib, long* ie) {
  return GOMP_loop_dynamic_start(b, e, i, c, ib, ie);
}
bool GOMP_loop_nonmonotonic_dynamic_next(long* b, long* e) { return team && GOMP_loop_dynamic_next(b, e); }
bool GOMP_loop_guided_start(long b, long e, long i, long c, long* ib, long* ie) {
  return GOMP_loop_dynamic_start(b, e, i, c, ib, ie);
}
bool GOMP_loop_guided_next(long* b, long* e) { return team && GOMP_loop_dynamic_next(b, e); }
bool GOMP_loop_nonmonotonic_guided_start(long b, long e, long i, long c, long* ib, long* ie) {
  return GOMP_loop_dynamic_start(b, e, i, c, ib, ie);
}
bool GOMP_loop_nonmonotonic_guided_next(long* b, long* e) { return team && GOMP_loop_dynamic_next(b, e); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
