// Deterministic simulator core: one PRNG (or one recorded tape of choices)
// decides scenario, schedule, clock and faults of a run.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
/// Draws a value in [0, n). Zero is by convention the simplest choice, so that
/// a tape of zeros is the plainest run.
uint64_t choose(uint64_t n, const char* tag);
/// As choose, but the value is produced by gen (which must use aux_random) when
/// not replaying.
uint64_t choose_gen(uint64_t n, const char* tag,
                    const std::function<uint64_t()>& gen);
/// PRNG stream used by choose_gen generators only.
uint64_t aux_random();
bool chance(double p, const char* tag);
/// A value in [a, b], a for choice 0.
double uniform(double a, double b, const char* tag);
int64_t range(int64_t lo, int64_t hi, const char* tag); // inclusive
template <typename C> auto& pick(C& c, const char* tag) {
  return c[static_cast<std::size_t>(choose(c.size(), tag))];
}

// ---------------------------------------------------------------- logging
__attribute__((format(printf, 1, 2))) void event(const char* fmt, ...);
/// Trace only; not part of the hash.
__attribute__((format(printf, 1, 2))) void note(const char* fmt, ...);
/// Ends the run: the property is violated. cls identifies the kind.
[[noreturn]] __attribute__((format(printf, 2, 3))) void
violate(const char* cls, const char* fmt, ...);
/// Ends the run: the harness itself is broken (never a violation).
[[noreturn]] __attribute__((format(printf, 1, 2))) void
harness_error(const char* fmt, ...);
/// For a forked child of a run: it no longer speaks for the run.
void detach();
/// Ends the run early, successfully.
[[noreturn]] void finish();
void count(const std::string& key, long long n = 1);
/// Adds to the hash that identifies the explored behaviour of this run.
void cover(uint64_t h);
/// Identifies the schedule and the events of the run so far.
uint64_t execution_hash();
void mark_nontrivial();
void describe(const std::string& s); // one-line description of the scenario
uint64_t hash_bytes(const void* p, std::size_t n, uint64_t h = 1469598103934665603ull);
template <typename T> uint64_t hash_of(const T& x, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(&x, sizeof(x), h);
}

// ---------------------------------------------------------------- tasks
constexpr int kMaxTasks = 64;
/// Creates a runnable task. rank is the simulated process it belongs to,
/// thread_num its number within an OpenMP team.
int spawn(const std::string& name, int rank, std::function<void()> fn,
          int thread_num = 0, int team_size = 1);
/// Blocks the caller until all given tasks are done.
void join(const std::vector<int>& tasks);
void yield(const char* where);
void block_until(const std::function<bool()>& pred, const char* what);
/// Ends every task but the given one, at once and without unwinding. Does not
/// return if the caller is not the survivor.
void crash_tasks(int survivor);
int current_task();
int current_rank();
int current_thread_num();
int current_team_size();
void set_current_team(int thread_num, int team_size);
bool active();        // inside a run and on a simulated task
int num_tasks_alive();
/// Called right before/after a task is descheduled (e.g. to drop the GIL).
struct SwitchHooks {
  void* (*before)() = nullptr;
  void (*after)(void*) = nullptr;
};
void set_switch_hooks(SwitchHooks h);
/// Re-draws the schedule mode. Called by the runner at the start of each run.
void init_schedule();
/// Called when there is no runnable task; may return true after making
/// progress possible (e.g. advancing time). Default: deadlock violation.
void set_deadlock_class(const char* cls);
/// Human readable reason for each blocked task.
std::string blocked_summary();

// ---------------------------------------------------------------- memory-access preemption
/// Number of instrumented accesses until the next preemption (<0: never).
extern thread_local int64_t tl_preempt_after;
/// Sees every memory access of the calling thread, if set.
extern thread_local void (*tl_watch)(const volatile void* p, std::size_t n, bool write);
extern thread_local int tl_no_preempt;
extern thread_local bool tl_preempting; // inside of preempt_now
void preempt_now();
/// Enables preemption at memory accesses for the current task; gap is drawn
/// anew after each preemption, at most max_preempt times per run.
void enable_access_preemption(double mean_gap, int max_preempt);
void disable_access_preemption();
uint64_t accesses_seen();

// ---------------------------------------------------------------- clock
int64_t now_ns();              // true simulated time
void advance_ns(int64_t ns);
void set_clock(int rank, int64_t offset_ns, double rate);
int64_t clock_ns(int rank);    // what rank's steady clock shows
void enable_clock(bool on);    // simulated clock for real code
void jump_wall_clock(int rank, int64_t ns); // affects std::chrono::system_clock only
int64_t wall_ns(int rank);

// ---------------------------------------------------------------- MPI
void mpi_init(int nranks);
int mpi_size();
struct MpiStats { long long collectives = 0; };
/// Log of collective operations per rank (name+count+type).
const std::vector<std::string>& mpi_log(int rank);

// ---------------------------------------------------------------- scenario
struct RunInfo {
  std::string property;
  std::string tier;
  uint64_t seed;
};
const RunInfo& info();

} // namespace sim

/// Provided by each harness.
void scenario_init();                       // once per process
void scenario_run(const std::string& prop); // one run, in a forked child
