#include "sim.hpp"

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
namespace {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

struct Task {
  int id;
  std::string name;
  int rank;
  int thread_num;
  int team_size;
  std::function<void()> fn;
  pthread_t thread{};
  sem_t sem;
  enum State { Runnable, Blocked, Done } state = Runnable;
  std::function<bool()> pred;
  std::string what;
  int64_t preempt_after = -1;
};

struct Run {
  RunInfo info;
  bool replay = false;
  std::vector<uint64_t> tape_in;
  std::size_t tape_pos = 0;
  Rng rng{1};
  Rng aux{2};
  uint64_t hash = 1469598103934665603ull;
  uint64_t cover = 1469598103934665603ull;
  bool nontrivial = false;
  long long steps = 0;
  long long events = 0;
  long long switches = 0;
  bool trace = false;
  std::string trace_text;
  std::map<std::string, long long> counters;
  std::string description;
  int out_fd = -1;
  // tasks
  std::vector<std::unique_ptr<Task>> tasks;
  Task* current = nullptr;
  int mode = 0;
  std::vector<uint64_t> prio;
  int victim = -1;
  double sticky = 0.9;
  std::string deadlock_class = "deadlock";
  SwitchHooks hooks;
  // clock
  int64_t now = 1000000000ll;
  std::vector<std::pair<int64_t, double>> clocks;
  std::vector<int64_t> wall; // accumulated jumps of the wall clock
  bool clock_on = false;
  // access preemption
  double mean_gap = 0;
  int preempt_left = 0;
  long long accesses = 0;
  bool finished = false;
};

Run* g = nullptr;

/// The tape lives in memory shared with the runner, so that the choices of a
/// run that crashes or hangs are known as well.
struct SharedTape {
  uint64_t size;
  uint64_t desc_size;
  char desc[4096];
  uint64_t data[];
};
constexpr std::size_t kMaxTape = 1u << 20;
SharedTape* g_tape = nullptr;

thread_local Task* tl_task = nullptr;
bool g_sim_clock = false;
bool g_is_detached = false;

void write_all(int fd, const std::string& s) {
  std::size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::syscall(SYS_write, fd, s.data() + off, s.size() - off);
    if (n <= 0) {
      if (n < 0 && errno == EINTR) {
        continue;
      }
      break;
    }
    off += static_cast<std::size_t>(n);
  }
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

[[noreturn]] void end_run(const char* status, const std::string& cls,
                          const std::string& msg) {
  Run* r = g;
  g_sim_clock = false;
  std::ostringstream o;
  o << "{\"status\":\"" << status << "\",\"cls\":\"" << json_escape(cls)
    << "\",\"msg\":\"" << json_escape(msg) << "\",\"hash\":\"" << std::hex
    << r->hash << "\",\"cover\":\"" << r->cover << std::dec
    << "\",\"nontrivial\":" << (r->nontrivial ? 1 : 0)
    << ",\"steps\":" << r->steps << ",\"events\":" << r->events
    << ",\"switches\":" << r->switches << ",\"accesses\":" << r->accesses
    << ",\"sim_ns\":" << r->now - 1000000000ll << ",\"desc\":\""
    << json_escape(r->description) << "\",\"counters\":{";
  bool first = true;
  for (auto& [k, v] : r->counters) {
    o << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
    first = false;
  }
  o << "}";
  o << ",\"tape_len\":" << g_tape->size;
  if (r->trace || std::strcmp(status, "ok") != 0) {
    o << ",\"tape\":[";
    for (std::size_t i = 0; i < g_tape->size; ++i) {
      o << (i ? "," : "") << g_tape->data[i];
    }
    o << "]";
  }
  if (r->trace) {
    o << ",\"trace\":\"" << json_escape(r->trace_text) << "\"";
  }
  o << "}\n";
  if (g_is_detached) {
    ::_exit(11);
  }
  write_all(r->out_fd, o.str());
  ::_exit(std::strcmp(status, "ok") == 0 ? 0 : 10);
}

std::string vfmt(const char* fmt, va_list ap) {
  char buf[4096];
  int n = std::vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < 0) {
    return fmt;
  }
  return std::string(buf, std::min<std::size_t>(static_cast<std::size_t>(n),
                                                sizeof buf - 1));
}

void trace_line(const std::string& s) {
  if (g->trace && g->trace_text.size() < (1u << 20)) {
    char b[64];
    std::snprintf(b, sizeof b, "[%s] ",
                  tl_task ? tl_task->name.c_str() : "-");
    g->trace_text += b;
    g->trace_text += s;
    g->trace_text += "\n";
  }
}

} // namespace

uint64_t hash_bytes(const void* p, std::size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}

const RunInfo& info() { return g->info; }

uint64_t aux_random() { return g->aux.next(); }

uint64_t choose_gen(uint64_t n, const char* tag,
                    const std::function<uint64_t()>& gen) {
  if (n <= 1) {
    return 0;
  }
  uint64_t v = 0;
  if (g->replay) {
    v = g->tape_pos < g->tape_in.size() ? g->tape_in[g->tape_pos] % n : 0;
    ++g->tape_pos;
  } else {
    v = gen() % n;
  }
  if (g_tape->size >= kMaxTape) {
    violate("hang", "the run takes more decisions than any admissible run "
            "(last one: %s)", tag);
  }
  g_tape->data[g_tape->size++] = v;
  return v;
}

uint64_t choose(uint64_t n, const char* tag) {
  return choose_gen(n, tag, [] { return g->rng.next() >> 11; });
}

bool chance(double p, const char* tag) {
  const uint64_t v = choose(4096, tag);
  return v >= static_cast<uint64_t>(std::llround(4096.0 * (1.0 - p)));
}

double uniform(double a, double b, const char* tag) {
  return a + (b - a) * (static_cast<double>(choose(4097, tag)) / 4096.0);
}

int64_t range(int64_t lo, int64_t hi, const char* tag) {
  return lo + static_cast<int64_t>(
                  choose(static_cast<uint64_t>(hi - lo + 1), tag));
}

void event(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  if (tl_task) {
    const int id = tl_task->id;
    g->hash = hash_bytes(&id, sizeof id, g->hash);
  }
  g->hash = hash_bytes(s.data(), s.size(), g->hash);
  g->events += 1;
  trace_line(s);
}

void note(const char* fmt, ...) {
  if (!g || !g->trace) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  trace_line(s);
}

void violate(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  trace_line(std::string("VIOLATION ") + cls + ": " + s);
  end_run("violation", cls, s);
}

void detach() {
  g->out_fd = -1;
  g_is_detached = true;
  std::set_terminate(std::abort);
}

void harness_error(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  end_run("error", "harness", s);
}

void finish() { end_run("ok", "", ""); }

void count(const std::string& key, long long n) { g->counters[key] += n; }
void cover(uint64_t h) { g->cover = hash_bytes(&h, sizeof h, g->cover); }
void mark_nontrivial() { g->nontrivial = true; }
void describe(const std::string& s) {
  if (!g->description.empty()) {
    g->description += "; ";
  }
  g->description += s;
  g_tape->desc_size = std::min(g->description.size(), sizeof g_tape->desc);
  std::memcpy(g_tape->desc, g->description.data(), g_tape->desc_size);
}

// ---------------------------------------------------------------- tasks

bool active() { return g != nullptr && tl_task != nullptr; }
int current_task() { return tl_task ? tl_task->id : -1; }
int current_rank() { return tl_task ? tl_task->rank : 0; }
int current_thread_num() { return tl_task ? tl_task->thread_num : 0; }
int current_team_size() { return tl_task ? tl_task->team_size : 1; }
void set_current_team(int thread_num, int team_size) {
  tl_task->thread_num = thread_num;
  tl_task->team_size = team_size;
}
void set_switch_hooks(SwitchHooks h) { g->hooks = h; }
void set_deadlock_class(const char* cls) { g->deadlock_class = cls; }

int num_tasks_alive() {
  int n = 0;
  for (auto& t : g->tasks) {
    n += t->state != Task::Done;
  }
  return n;
}

std::string blocked_summary() {
  std::string s;
  for (auto& t : g->tasks) {
    if (t->state == Task::Blocked) {
      s += t->name + " waits in " + t->what + "; ";
    } else if (t->state == Task::Done) {
      s += t->name + " has ended; ";
    }
  }
  return s;
}

void init_schedule() {
  g->mode = static_cast<int>(choose(6, "sched-mode"));
  g->sticky = 0.5 + 0.49 * (static_cast<double>(choose(8, "sticky")) / 7.0);
  g->victim = static_cast<int>(choose(8, "victim"));
}

namespace {

thread_local bool tl_is_sim_thread = false;

void refresh() {
  for (auto& t : g->tasks) {
    if (t->state == Task::Blocked && t->pred && t->pred()) {
      t->state = Task::Runnable;
      t->pred = nullptr;
    }
  }
}

Task* pick_next(Task* cur) {
  refresh();
  std::vector<Task*> cand;
  if (cur && cur->state == Task::Runnable) {
    cand.push_back(cur);
  }
  for (auto& t : g->tasks) {
    if (t.get() != cur && t->state == Task::Runnable) {
      cand.push_back(t.get());
    }
  }
  if (cand.empty()) {
    return nullptr;
  }
  if (cand.size() == 1) {
    return cand[0];
  }
  const bool cur_first = cur && cand[0] == cur;
  uint64_t idx = choose_gen(cand.size(), "sched", [&]() -> uint64_t {
    auto uni = [&] { return (g->aux.next() >> 11) % cand.size(); };
    switch (g->mode) {
    default:
    case 0:
      return 0;
    case 1:
      return uni();
    case 2: { // random priorities with occasional change points
      while (g->prio.size() < g->tasks.size()) {
        g->prio.push_back(g->aux.next() >> 8);
      }
      if ((g->aux.next() >> 11) % 40 == 0) {
        g->prio[static_cast<std::size_t>(cand[0]->id)] = g->aux.next() >> 40;
      }
      std::size_t best = 0;
      for (std::size_t i = 1; i < cand.size(); ++i) {
        if (g->prio[static_cast<std::size_t>(cand[i]->id)] >
            g->prio[static_cast<std::size_t>(cand[best]->id)]) {
          best = i;
        }
      }
      return best;
    }
    case 3: // sticky
      if (cur_first &&
          static_cast<double>(g->aux.next() >> 11) * 0x1p-53 < g->sticky) {
        return 0;
      }
      return uni();
    case 4: { // one starved task
      std::vector<std::size_t> ok;
      for (std::size_t i = 0; i < cand.size(); ++i) {
        if (cand[i]->rank != g->victim &&
            cand[i]->id % 8 != g->victim) {
          ok.push_back(i);
        }
      }
      if (ok.empty()) {
        return uni();
      }
      return ok[(g->aux.next() >> 11) % ok.size()];
    }
    case 5: // reversed run-to-block
      return cur_first ? 0 : cand.size() - 1;
    }
  });
  return cand[idx];
}

void switch_to(Task* self, Task* next) {
  if (next == self) {
    return;
  }
  g->switches += 1;
  const int ids[2] = {self ? self->id : -1, next->id};
  g->hash = hash_bytes(ids, sizeof ids, g->hash);
  g->current = next;
  const bool wait = self && self->state != Task::Done; // next may change it
  ::sem_post(&next->sem);
  if (wait) {
    while (::sem_wait(&self->sem) != 0) {
    }
  }
}

[[noreturn]] void deadlock() {
  violate(g->deadlock_class.c_str(), "no task can make progress: %s",
          blocked_summary().c_str());
}

void reschedule(Task* self) {
  g->steps += 1;
  Task* next = pick_next(self);
  if (!next) {
    deadlock();
  }
  if (next == self) {
    return;
  }
  void* cookie = nullptr;
  const bool hooks = self && self->state != Task::Done && g->hooks.before;
  if (hooks) {
    cookie = g->hooks.before();
  }
  switch_to(self, next);
  if (hooks) {
    g->hooks.after(cookie);
  }
}

void* task_main(void* arg) {
  Task* t = static_cast<Task*>(arg);
  while (::sem_wait(&t->sem) != 0) {
  }
  tl_task = t;
  tl_is_sim_thread = true;
  tl_preempt_after = -1;
  try {
    t->fn();
  } catch (std::exception& e) {
    violate("uncaught-exception", "task %s ended with an exception: %s",
            t->name.c_str(), e.what());
  } catch (...) {
    violate("uncaught-exception", "task %s ended with an unknown exception",
            t->name.c_str());
  }
  tl_preempt_after = -1;
  t->state = Task::Done;
  reschedule(t);
  return nullptr;
}

} // namespace

void crash_tasks(int survivor) {
  Task* self = tl_task;
  for (auto& t : g->tasks) {
    if (t->id != survivor && t.get() != self) {
      t->state = Task::Done; // its thread sleeps until the process ends
    }
  }
  if (!self || self->id == survivor) {
    return;
  }
  if (g->hooks.before) {
    g->hooks.before();
  }
  self->state = Task::Done;
  g->steps += 1;
  Task* next = pick_next(self);
  if (!next) {
    deadlock();
  }
  switch_to(self, next);
  for (;;) {
    ::pause();
  }
}

int spawn(const std::string& name, int rank, std::function<void()> fn,
          int thread_num, int team_size) {
  if (g->tasks.size() >= 100000) {
    harness_error("too many tasks");
  }
  auto t = std::make_unique<Task>();
  t->id = static_cast<int>(g->tasks.size());
  t->name = name;
  t->rank = rank;
  t->thread_num = thread_num;
  t->team_size = team_size;
  t->fn = std::move(fn);
  ::sem_init(&t->sem, 0, 0);
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 8u << 20);
  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
  Task* raw = t.get();
  g->tasks.push_back(std::move(t));
  if (::pthread_create(&raw->thread, &attr, &task_main, raw) != 0) {
    harness_error("pthread_create failed");
  }
  pthread_attr_destroy(&attr);
  return raw->id;
}

void join(const std::vector<int>& tasks) {
  block_until(
      [&] {
        for (int t : tasks) {
          if (g->tasks[static_cast<std::size_t>(t)]->state != Task::Done) {
            return false;
          }
        }
        return true;
      },
      "join");
}

void yield(const char*) {
  if (!active() || g->tasks.size() < 2) {
    return;
  }
  const int64_t save = tl_preempt_after;
  tl_preempt_after = -1;
  reschedule(tl_task);
  tl_preempt_after = save;
}

void block_until(const std::function<bool()>& pred, const char* what) {
  if (!active()) {
    if (!pred()) {
      harness_error("block outside of a task: %s", what);
    }
    return;
  }
  const int64_t save = tl_preempt_after;
  tl_preempt_after = -1;
  Task* self = tl_task;
  if (!pred()) {
    self->state = Task::Blocked;
    self->pred = pred;
    self->what = what;
    reschedule(self);
  } else {
    reschedule(self);
  }
  tl_preempt_after = save;
}

// ---------------------------------------------------------------- access preemption
thread_local int64_t tl_preempt_after = -1;
thread_local void (*tl_watch)(const volatile void* p, std::size_t n, bool write) = nullptr;
thread_local int tl_no_preempt = 0;
thread_local bool tl_preempting = false;

namespace {
int64_t draw_gap() {
  if (g->preempt_left <= 0 || g->mean_gap <= 0) {
    return -1;
  }
  // log-uniform-ish gaps: short and long ones both occur
  const uint64_t max_gap = static_cast<uint64_t>(g->mean_gap * 4) + 2;
  return static_cast<int64_t>(choose_gen(max_gap, "gap", [&]() -> uint64_t {
    const double u = static_cast<double>(g->aux.next() >> 11) * 0x1p-53;
    return static_cast<uint64_t>(
        std::exp(u * std::log(static_cast<double>(max_gap))));
  }));
}
} // namespace

void enable_access_preemption(double mean_gap, int max_preempt) {
  if (mean_gap > 0 && g->mean_gap != mean_gap) {
    g->mean_gap = mean_gap;
    g->preempt_left = max_preempt;
  }
  tl_preempt_after = draw_gap();
}
void disable_access_preemption() { tl_preempt_after = -1; }
uint64_t accesses_seen() { return static_cast<uint64_t>(g->accesses); }

void preempt_now() {
  if (!active() || !tl_is_sim_thread) {
    tl_preempt_after = -1;
    return;
  }
  if (tl_no_preempt > 0) {
    tl_preempt_after = 1;
    return;
  }
  tl_preempt_after = -1;
  tl_preempting = true;
  g->preempt_left -= 1;
  g->counters["preemptions at memory accesses"] += 1;
  reschedule(tl_task);
  tl_preempt_after = draw_gap();
  tl_preempting = false;
}

// ---------------------------------------------------------------- clock
uint64_t execution_hash() { return g->hash; }
int64_t now_ns() { return g->now; }
void advance_ns(int64_t ns) { g->now += ns; }
void set_clock(int rank, int64_t offset_ns, double rate) {
  if (g->clocks.size() <= static_cast<std::size_t>(rank)) {
    g->clocks.resize(static_cast<std::size_t>(rank) + 1, {0, 1.0});
  }
  g->clocks[static_cast<std::size_t>(rank)] = {offset_ns, rate};
}
int64_t clock_ns(int rank) {
  if (g->clocks.size() <= static_cast<std::size_t>(rank)) {
    return g->now;
  }
  auto [off, rate] = g->clocks[static_cast<std::size_t>(rank)];
  return off + static_cast<int64_t>(static_cast<long double>(g->now) * rate);
}
void enable_clock(bool on) { g_sim_clock = on; }
void jump_wall_clock(int rank, int64_t ns) {
  if (g->wall.size() <= static_cast<std::size_t>(rank)) {
    g->wall.resize(static_cast<std::size_t>(rank) + 1, 0);
  }
  g->wall[static_cast<std::size_t>(rank)] += ns;
}
int64_t wall_ns(int rank) {
  const int64_t jump = static_cast<std::size_t>(rank) < g->wall.size() ? g->wall[static_cast<std::size_t>(rank)] : 0;
  return 1600000000000000000ll + clock_ns(rank) + jump;
}

bool sim_clock_on() { return g_sim_clock && g != nullptr; }

} // namespace sim

// The seam for time: these definitions replace the ones of libstdc++.so.
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  if (sim::sim_clock_on()) {
    return time_point(duration(sim::clock_ns(sim::current_rank())));
  }
  timespec ts;
  ::clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(
      duration(static_cast<int64_t>(ts.tv_sec) * 1000000000ll + ts.tv_nsec));
}
system_clock::time_point system_clock::now() noexcept {
  if (sim::sim_clock_on()) {
    return time_point(duration(sim::wall_ns(sim::current_rank())));
  }
  timespec ts;
  ::clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(
      duration(static_cast<int64_t>(ts.tv_sec) * 1000000000ll + ts.tv_nsec));
}
} // namespace _V2
} // namespace std::chrono

// ================================================================ runner
namespace sim {
namespace {

uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b);
  r.next();
  return r.next();
}

struct Outcome {
  std::string json;   // the child's report, if any
  std::string status; // ok, violation, error
  std::string cls;
  std::string hash;
};

std::string json_get(const std::string& j, const std::string& key) {
  const std::string k = "\"" + key + "\":";
  auto p = j.find(k);
  if (p == std::string::npos) {
    return "";
  }
  p += k.size();
  if (j[p] == '"') {
    std::string o;
    for (++p; p < j.size() && j[p] != '"'; ++p) {
      if (j[p] == '\\' && p + 1 < j.size()) {
        ++p;
        if (j[p] == 'n') {
          o += '\n';
        } else if (j[p] == 'u') {
          o += static_cast<char>(std::stoi(j.substr(p + 1, 4), nullptr, 16));
          p += 4;
        } else {
          o += j[p];
        }
      } else {
        o += j[p];
      }
    }
    return o;
  }
  auto e = j.find_first_of(",}", p);
  return j.substr(p, e - p);
}

std::vector<uint64_t> json_get_array(const std::string& j,
                                     const std::string& key) {
  std::vector<uint64_t> v;
  const std::string k = "\"" + key + "\":[";
  auto p = j.find(k);
  if (p == std::string::npos) {
    // tolerate whitespace
    auto q = j.find("\"" + key + "\"");
    if (q == std::string::npos) {
      return v;
    }
    p = j.find('[', q);
    if (p == std::string::npos) {
      return v;
    }
    p += 1;
  } else {
    p += k.size();
  }
  while (p < j.size() && j[p] != ']') {
    if (std::isdigit(static_cast<unsigned char>(j[p]))) {
      char* e = nullptr;
      v.push_back(std::strtoull(j.c_str() + p, &e, 10));
      p = static_cast<std::size_t>(e - j.c_str());
    } else {
      ++p;
    }
  }
  return v;
}

double g_run_timeout = 20.0;

/// An exception that escapes through a noexcept function or a thread.
[[noreturn]] void on_terminate() {
  if (!g) {
    std::abort();
  }
  if (std::exception_ptr p = std::current_exception()) {
    try {
      std::rethrow_exception(p);
    } catch (std::exception& e) {
      violate("terminate", "std::terminate was called, the exception is: %s", e.what());
    } catch (...) {
      violate("terminate", "std::terminate was called, the exception is of unknown type");
    }
  }
  violate("terminate", "std::terminate was called");
}

void child_main(const RunInfo& inf, const std::vector<uint64_t>* tape,
                bool trace, int fd) {
  g = new Run();
  g->info = inf;
  g->out_fd = fd;
  g->trace = trace;
  if (tape) {
    g->replay = true;
    g->tape_in = *tape;
  }
  g->rng = Rng(inf.seed);
  g->aux = Rng(mix(inf.seed, 77));
  rlimit rl{static_cast<rlim_t>(g_run_timeout),
            static_cast<rlim_t>(g_run_timeout + 1)};
  ::setrlimit(RLIMIT_CPU, &rl);
  rlimit core{0, 0};
  ::setrlimit(RLIMIT_CORE, &core);
  std::set_terminate(on_terminate);
  init_schedule();
  // The scenario itself runs as task 0.
  auto t = std::make_unique<Task>();
  t->id = 0;
  t->name = "main";
  t->rank = 0;
  t->thread_num = 0;
  t->team_size = 1;
  ::sem_init(&t->sem, 0, 0);
  tl_task = t.get();
  tl_is_sim_thread = true;
  g->current = t.get();
  g->tasks.push_back(std::move(t));
  try {
    scenario_run(inf.property);
  } catch (std::exception& e) {
    violate("uncaught-exception", "the run ended with an exception: %s",
            e.what());
  } catch (...) {
    violate("uncaught-exception", "the run ended with an unknown exception");
  }
  finish();
}

double wall() {
  timespec ts;
  ::clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

Outcome run_once(const RunInfo& inf, const std::vector<uint64_t>* tape,
                 bool trace) {
  int p[2];
  g_tape->size = 0;
  g_tape->desc_size = 0;
  if (::pipe(p) != 0) {
    std::perror("pipe");
    std::exit(2);
  }
  std::cout.flush();
  std::fflush(nullptr);
  pid_t pid = ::fork();
  if (pid < 0) {
    std::perror("fork");
    std::exit(2);
  }
  if (pid == 0) {
    ::close(p[0]);
    ::setpgid(0, 0);
    // real code prints to stdout/stderr; keep that out of our output
    int nul = ::open("/dev/null", O_RDWR);
    if (!std::getenv("SIM_KEEP_OUTPUT")) {
      ::dup2(nul, 1);
      ::dup2(nul, 2);
    }
    child_main(inf, tape, trace, p[1]);
    ::_exit(0);
  }
  ::close(p[1]);
  Outcome o;
  const double t0 = wall();
  char buf[65536];
  bool timeout = false;
  for (;;) {
    // Generous real-time bound; the CPU limit is what normally fires.
    const double left = t0 + 4 * g_run_timeout - wall();
    if (left <= 0) {
      timeout = true;
      break;
    }
    pollfd pf{p[0], POLLIN, 0};
    int n = ::poll(&pf, 1, static_cast<int>(left * 1000) + 1);
    if (n > 0) {
      ssize_t k = ::read(p[0], buf, sizeof buf);
      if (k > 0) {
        o.json.append(buf, static_cast<std::size_t>(k));
      } else if (k == 0) {
        break;
      }
    }
  }
  if (timeout) {
    ::kill(pid, SIGKILL);
  }
  ::close(p[0]);
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  o.status = json_get(o.json, "status");
  o.cls = json_get(o.json, "cls");
  o.hash = json_get(o.json, "hash");
  if (o.json.empty() || o.json.back() != '\n') {
    o.status = "violation";
    if (timeout || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU))) {
      o.cls = "hang";
    } else if (WIFSIGNALED(st)) {
      o.cls = std::string("crash-") + std::to_string(WTERMSIG(st));
      if (WTERMSIG(st) == SIGKILL) {
        o.status = "error"; // most likely the memory guard
      }
    } else {
      o.cls = "exit-" + std::to_string(WEXITSTATUS(st));
    }
    o.hash = o.cls;
    std::ostringstream s;
    s << "{\"status\":\"" << o.status << "\",\"cls\":\"" << o.cls
      << "\",\"msg\":\"the process under simulation ended with " << o.cls
      << "\",\"hash\":\"" << o.cls << "\",\"desc\":\""
      << json_escape(std::string(g_tape->desc, g_tape->desc_size))
      << "\",\"tape_len\":" << g_tape->size << ",\"tape\":[";
    for (std::size_t i = 0; i < g_tape->size; ++i) {
      s << (i ? "," : "") << g_tape->data[i];
    }
    s << "]}\n";
    o.json = s.str();
  }
  return o;
}

} // namespace

int runner_main(int argc, char** argv) {
  std::string mode = "explore", prop, tier = "quick", out, in;
  uint64_t seed = 1;
  long long start = 0, n = 1000000000, stride = 1;
  double budget = 10;
  std::string cls_filter;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--mode") mode = next();
    else if (a == "--prop") prop = next();
    else if (a == "--tier") tier = next();
    else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--start") start = std::atoll(next().c_str());
    else if (a == "--stride") stride = std::atoll(next().c_str());
    else if (a == "--n") n = std::atoll(next().c_str());
    else if (a == "--budget") budget = std::atof(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--in") in = next();
    else if (a == "--timeout") g_run_timeout = std::atof(next().c_str());
    else { std::cerr << "bad option " << a << "\n"; return 2; }
  }
  if (!std::getenv("SIM_ASLR")) {
    const int pers = ::personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE)) {
      if (::personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) {
        ::execv("/proc/self/exe", argv);
      }
    }
  }
  g_tape = static_cast<SharedTape*>(
      ::mmap(nullptr, sizeof(SharedTape) + kMaxTape * sizeof(uint64_t),
             PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
             -1, 0));
  if (g_tape == MAP_FAILED) {
    std::perror("mmap");
    return 2;
  }
  scenario_init();
  RunInfo inf;
  inf.property = prop;
  inf.tier = tier;
  auto seed_of = [&](long long i) { return mix(mix(seed, hash_bytes(prop.data(), prop.size())), static_cast<uint64_t>(i)); };

  if (mode == "explore") {
    const double t0 = wall();
    long long runs = 0, nontriv = 0, steps = 0, events = 0, switches = 0, accesses = 0;
    double sim_ns = 0;
    std::map<std::string, long long> counters;
    std::unordered_set<uint64_t> covers;
    std::vector<std::string> samples;
    std::vector<std::string> bad;
    std::map<std::string, int> bad_classes;
    std::ofstream hashes;
    for (long long k = 0; k < n && wall() - t0 < budget; ++k) {
      const long long i = start + k * stride;
      inf.seed = seed_of(i);
      Outcome o = run_once(inf, nullptr, false);
      ++runs;
      if (o.status == "ok") {
        const bool nt = json_get(o.json, "nontrivial") == "1";
        if (nt) {
          const uint64_t c = std::strtoull(json_get(o.json, "cover").c_str(), nullptr, 16);
          if (covers.insert(c).second) ++nontriv;
        }
        if (samples.size() < 3 || (nt && samples.size() < 5)) {
          samples.push_back(json_get(o.json, "desc"));
        }
      } else {
        if (bad_classes[o.cls]++ < 2 && bad.size() < 12) {
          std::ostringstream s;
          s << "{\"index\":" << i << ",\"seed\":" << inf.seed << ",\"report\":"
            << o.json.substr(0, o.json.size() - 1) << "}";
          bad.push_back(s.str());
        }
        if (o.status == "error" || runs > 0) {
          // keep looking for other classes for a short while only
          if (bad_classes[o.cls] > 20) break;
        }
      }
      steps += std::atoll(json_get(o.json, "steps").c_str());
      events += std::atoll(json_get(o.json, "events").c_str());
      switches += std::atoll(json_get(o.json, "switches").c_str());
      accesses += std::atoll(json_get(o.json, "accesses").c_str());
      sim_ns += std::atof(json_get(o.json, "sim_ns").c_str());
      auto p = o.json.find("\"counters\":{");
      if (p != std::string::npos) {
        p += 12;
        auto e = o.json.find('}', p);
        std::string c = o.json.substr(p, e - p);
        std::size_t q = 0;
        while (q < c.size()) {
          auto a = c.find('"', q);
          if (a == std::string::npos) break;
          auto b = c.find("\":", a + 1);
          auto d = c.find(',', b);
          if (d == std::string::npos) d = c.size();
          counters[c.substr(a + 1, b - a - 1)] += std::atoll(c.c_str() + b + 2);
          q = d + 1;
        }
      }
    }
    std::ofstream f(out);
    f << "{\"runs\":" << runs << ",\"distinct_nontrivial\":" << nontriv
      << ",\"steps\":" << steps << ",\"events\":" << events
      << ",\"switches\":" << switches << ",\"accesses\":" << accesses
      << ",\"sim_s\":" << sim_ns * 1e-9 << ",\"wall_s\":" << wall() - t0
      << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : counters) {
      f << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
      first = false;
    }
    f << "},\"covers\":[";
    first = true;
    for (uint64_t c : covers) {
      f << (first ? "" : ",") << c;
      first = false;
    }
    f << "],\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) {
      f << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
    }
    f << "],\"bad\":[";
    for (std::size_t i = 0; i < bad.size(); ++i) {
      f << (i ? "," : "") << bad[i];
    }
    f << "]}\n";
    return 0;
  }
  if (mode == "hashes") { // determinism gate
    for (long long k = 0; k < n; ++k) {
      const long long i = start + k * stride;
      inf.seed = seed_of(i);
      Outcome o = run_once(inf, nullptr, false);
      std::cout << i << " " << o.status << " " << o.cls << " " << o.hash << "\n";
    }
    return 0;
  }
  if (mode == "seed") { // one seed, full report
    inf.seed = seed;
    Outcome o = run_once(inf, nullptr, true);
    std::cout << o.json;
    return 0;
  }
  if (mode == "index") {
    inf.seed = seed_of(start);
    Outcome o = run_once(inf, nullptr, true);
    std::cout << o.json;
    return 0;
  }
  auto slurp = [](const std::string& path) {
    std::ifstream f(path);
    return std::string(std::istreambuf_iterator<char>(f), {});
  };
  if (mode == "replay") {
    std::string j = slurp(in);
    // Compact the file first: find the tape array.
    std::vector<uint64_t> tape = json_get_array(j, "tape");
    inf.seed = seed;
    Outcome o = run_once(inf, &tape, true);
    std::cout << o.json;
    return 0;
  }
  if (mode == "minimize") {
    std::string j = slurp(in);
    std::vector<uint64_t> best = json_get_array(j, "tape");
    inf.seed = seed;
    Outcome o = run_once(inf, &best, false);
    if (o.status != "violation") {
      std::cout << "{\"status\":\"lost\"}\n";
      return 0;
    }
    const std::string cls = o.cls;
    const double t0 = wall();
    long long tried = 0;
    auto attempt = [&](std::vector<uint64_t> cand) {
      ++tried;
      Outcome c = run_once(inf, &cand, false);
      if (c.status == "violation" && c.cls == cls) {
        std::vector<uint64_t> used = json_get_array(c.json, "tape");
        if (!used.empty() && used.size() <= cand.size()) {
          cand = used;
        }
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        best = cand;
        return true;
      }
      return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && wall() - t0 < budget) {
      progress = false;
      // truncate
      for (std::size_t keep = 0; keep < best.size() && wall() - t0 < budget;
           keep = keep * 2 + 1) {
        std::vector<uint64_t> c(best.begin(), best.begin() + static_cast<long>(keep));
        if (attempt(c)) { progress = true; break; }
      }
      // delete and zero chunks
      for (std::size_t len = std::max<std::size_t>(1, best.size() / 2);
           len >= 1 && wall() - t0 < budget; len /= 2) {
        for (std::size_t i = 0; i < best.size() && wall() - t0 < budget;) {
          std::vector<uint64_t> c = best;
          const std::size_t e = std::min(i + len, c.size());
          bool nonzero = false;
          for (std::size_t k = i; k < e; ++k) nonzero |= c[k] != 0;
          bool hit = false;
          if (nonzero) {
            std::vector<uint64_t> z = best;
            for (std::size_t k = i; k < e; ++k) z[k] = 0;
            hit = attempt(z);
          }
          if (!hit) {
            c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(e));
            const std::size_t before = best.size();
            hit = attempt(c) && best.size() < before;
          }
          progress |= hit;
          if (!hit) i += len; 
          else if (nonzero) i += len;
        }
        if (len == 1) break;
      }
      // lower values
      for (std::size_t i = 0; i < best.size() && wall() - t0 < budget; ++i) {
        uint64_t lo = 0;
        while (i < best.size() && best[i] > lo && wall() - t0 < budget) {
          std::vector<uint64_t> c = best;
          const uint64_t old = c[i];
          c[i] = lo + (old - lo) / 2;
          if (attempt(c)) {
            progress = true;
            if (i >= best.size() || best[i] >= old) break;
          } else {
            lo = lo + (old - lo) / 2 + 1;
          }
        }
      }
    }
    Outcome fin = run_once(inf, &best, true);
    std::ostringstream s;
    s << "{\"minimised_from\":" << json_get_array(j, "tape").size()
      << ",\"candidates\":" << tried << ",\"tape\":[";
    for (std::size_t i = 0; i < best.size(); ++i) s << (i ? "," : "") << best[i];
    s << "],\"report\":" << fin.json << "}";
    std::ofstream(out) << s.str();
    std::cout << "{\"status\":\"done\"}\n";
    return 0;
  }
  std::cerr << "unknown mode\n";
  return 2;
}

} // namespace sim

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line,
                              const char* func) {
  if (!sim::g) {
    std::fprintf(stderr, "%s:%u: %s: assertion %s failed\n", file, line, func, expr);
    std::abort();
  }
  const char* base = std::strrchr(file, '/');
  (void)line;
  sim::violate("assertion-failed", "%s: %s: assertion %s failed", base ? base + 1 : file, func, expr);
}

int main(int argc, char** argv) { return sim::runner_main(argc, argv); }
