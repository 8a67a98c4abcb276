#include "sim_fs.hpp"
#include "sim.hpp"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/sendfile.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
bool sim_clock_on();
namespace {
std::string g_root;      // the scratch directory of all runs of this process
bool g_on = false;
std::vector<FsFault> g_plan;
int64_t g_crash_at = -1;
int g_survivor = 0;
FsReport g_report;
std::set<int> g_fds;
std::map<int, FsFault> g_sticky; // by sort of operation

enum Sort { Stat, OpenRead, OpenWrite, Read, Seek, Write, Meta, Copy, Sync };
const char* const kSort[] = {"stat", "open-read", "open-write", "read", "seek", "write", "metadata", "copy", "sync"};

template <typename F> F real(const char* name) {
  return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
}
#define REAL(f) (*[] { static auto p = sim::real<decltype(&::f)>(#f); return p; }())

bool ours(const char* path) {
  if (!g_on || !active() || !path || g_root.empty()) {
    return false;
  }
  if (path[0] != '/') {
    return true; // the working directory is the scratch directory
  }
  return std::strncmp(path, g_root.c_str(), g_root.size()) == 0;
}
bool ours(int fd) { return g_on && active() && g_fds.count(fd) != 0; }

struct Decision {
  bool fail = false;
  int err = 0;
  bool cut = false; // transfer less than asked for
};

const std::vector<int>& errors(Sort s) {
  static const std::vector<int> stat{EACCES, EIO, ELOOP}, open_read{EACCES, EMFILE, EIO, ENOMEM}, open_write{EACCES, ENOSPC, EMFILE, EROFS},
      read{EIO, EBADMSG}, write{ENOSPC, EIO, EDQUOT}, meta{EACCES, EIO, ENOSPC, EROFS}, sync{EIO};
  switch (s) {
  case Stat: return stat;
  case OpenRead: return open_read;
  case OpenWrite: return open_write;
  case Read: return read;
  case Seek: return sync;
  case Write:
  case Copy: return write;
  case Meta: return meta;
  default: return sync;
  }
}

/// The seam: every intercepted operation passes through here.
Decision operation(Sort s, const char* name, const char* path) {
  if (s != Read && s != Write && s != Seek) {
    const int e = errno;
    yield(name); // outside of any lock of the real code
    errno = e;
  }
  const int64_t at = g_report.ops++;
  note("rank %d: %s %s", current_rank(), name, path ? path : "");
  count(std::string("file operations:") + kSort[s]);
  if (g_crash_at >= 0 && at == g_crash_at) {
    g_report.crashed = true;
    event("crash before %s", name);
    count("fault:crash");
    crash_tasks(g_survivor);
  }
  Decision d;
  auto apply = [&](const FsFault& f) {
    if (f.kind == FsError) {
      const auto& e = errors(s);
      d.fail = true;
      d.err = e[static_cast<std::size_t>(f.which) % e.size()];
      g_report.hard += 1;
      count(std::string("fault:") + kSort[s] + "-error");
    } else if (f.kind == FsEintr && (s == Read || s == Write)) {
      d.fail = true;
      d.err = EINTR;
      g_report.benign += 1;
      count("fault:interrupted-call");
    } else if (f.kind == FsShort && (s == Read || s == Write || s == Copy)) {
      d.cut = true;
      g_report.benign += 1;
      count("fault:short-transfer");
    }
    if (d.fail || d.cut) {
      event("%s: %s", name, d.fail ? strerror(d.err) : "short");
    }
  };
  auto it = g_sticky.find(s);
  if (it != g_sticky.end() && (it->second.rank < 0 || it->second.rank == current_rank())) {
    apply(it->second);
    if (it->second.kind == FsEintr && --it->second.which < 0) {
      g_sticky.erase(it);
    }
    return d;
  }
  for (const FsFault& f : g_plan) {
    if (f.at == at && (f.rank < 0 || f.rank == current_rank())) {
      apply(f);
      if (f.sticky && (d.fail || d.cut)) {
        g_sticky[s] = f;
      }
      break;
    }
  }
  return d;
}

std::size_t cut(std::size_t n) { return n > 1 ? 1 + static_cast<std::size_t>(choose(n - 1, "short")) : n; }

int remove_entry(const char* p, const struct stat*, int, struct FTW*) {
  ::remove(p);
  return 0;
}
void remove_tree(const std::string& p) {
  if (p.find("/vsim-fs-") != std::string::npos) {
    ::nftw(p.c_str(), remove_entry, 16, FTW_DEPTH | FTW_PHYS);
  }
}

struct Scratch {
  pid_t owner = ::getpid();
  Scratch() {
    const int pers = ::personality(0xffffffff);
    if (!std::getenv("SIM_ASLR") && pers != -1 && !(pers & ADDR_NO_RANDOMIZE)) {
      return; // runner_main is about to execute this program again
    }
    create();
  }
  void create() {
    const char* base = std::getenv("SIM_SCRATCH");
    std::string p = std::string(base && *base ? base : "/tmp") + "/vsim-fs-XXXXXX";
    if (::mkdtemp(p.data())) {
      g_root = p;
    }
  }
  ~Scratch() {
    if (::getpid() == owner && !g_root.empty()) {
      remove_tree(g_root);
    }
  }
};
Scratch g_scratch;
} // namespace

std::string fs_enter_scratch() {
  if (g_root.empty()) {
    g_scratch.create();
  }
  if (g_root.empty()) {
    harness_error("cannot create a scratch directory");
  }
  const std::string run = g_root + "/run";
  remove_tree(run);
  if (::mkdir(run.c_str(), 0755) != 0 || ::chdir(run.c_str()) != 0) {
    harness_error("cannot enter %s", run.c_str());
  }
  return run;
}
void fs_enable(bool on) { g_on = on; }
void fs_plan(std::vector<FsFault> faults, int64_t crash_at, int survivor) {
  g_plan = std::move(faults);
  g_crash_at = crash_at;
  g_survivor = survivor;
  g_report = {};
  g_sticky.clear();
  g_fds.clear();
}
FsReport fs_report() { return g_report; }
} // namespace sim

// ================================================================ libc
using namespace sim;
#define FAIL_IF(d, value)                                                                                                  \
  if ((d).fail) {                                                                                                          \
    errno = (d).err;                                                                                                       \
    return value;                                                                                                          \
  }

namespace {
int track(int fd) {
  if (fd >= 0) {
    g_fds.insert(fd);
  }
  return fd;
}
Sort open_sort(int flags) { return (flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)) ? OpenRead : OpenWrite; }
FILE* do_fopen(FILE* (*fn)(const char*, const char*), const char* path, const char* mode) {
  if (!ours(path)) {
    return fn(path, mode);
  }
  const Decision d = operation(mode[0] == 'r' && !std::strchr(mode, '+') ? OpenRead : OpenWrite, "fopen", path);
  FAIL_IF(d, nullptr);
  FILE* f = fn(path, mode);
  if (f) {
    track(::fileno(f));
  }
  return f;
}
} // namespace

extern "C" {
FILE* fopen(const char* path, const char* mode) { return do_fopen(REAL(fopen), path, mode); }
FILE* fopen64(const char* path, const char* mode) { return do_fopen(REAL(fopen64), path, mode); }
int fclose(FILE* f) {
  g_fds.erase(::fileno(f));
  return REAL(fclose)(f);
}
int close(int fd) {
  g_fds.erase(fd);
  return REAL(close)(fd);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  if (!ours(path)) {
    return REAL(open)(path, flags, m);
  }
  const Decision d = operation(open_sort(flags), "open", path);
  FAIL_IF(d, -1);
  return track(REAL(open)(path, flags, m));
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  if (!ours(path)) {
    return REAL(open64)(path, flags, m);
  }
  const Decision d = operation(open_sort(flags), "open", path);
  FAIL_IF(d, -1);
  return track(REAL(open64)(path, flags, m));
}
int openat(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  if (!ours(path) || (dir != AT_FDCWD && path[0] != '/')) {
    return REAL(openat)(dir, path, flags, m);
  }
  const Decision d = operation(open_sort(flags), "openat", path);
  FAIL_IF(d, -1);
  return track(REAL(openat)(dir, path, flags, m));
}
ssize_t read(int fd, void* buf, size_t n) {
  if (!ours(fd)) {
    return REAL(read)(fd, buf, n);
  }
  const Decision d = operation(Read, "read", nullptr);
  FAIL_IF(d, -1);
  return REAL(read)(fd, buf, d.cut ? cut(n) : n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  if (!ours(fd)) {
    return REAL(pread)(fd, buf, n, off);
  }
  const Decision d = operation(Read, "pread", nullptr);
  FAIL_IF(d, -1);
  return REAL(pread)(fd, buf, d.cut ? cut(n) : n, off);
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (!ours(fd)) {
    return REAL(write)(fd, buf, n);
  }
  const Decision d = operation(Write, "write", nullptr);
  FAIL_IF(d, -1);
  return REAL(write)(fd, buf, d.cut ? cut(n) : n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (!ours(fd)) {
    return REAL(writev)(fd, v, k);
  }
  const Decision d = operation(Write, "writev", nullptr);
  FAIL_IF(d, -1);
  if (d.cut && k > 0) {
    return REAL(write)(fd, v[0].iov_base, v[0].iov_len ? cut(v[0].iov_len) : 0);
  }
  return REAL(writev)(fd, v, k);
}
off_t lseek(int fd, off_t o, int w) {
  if (ours(fd)) {
    const Decision d = operation(Seek, "lseek", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(lseek)(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
  if (ours(fd)) {
    const Decision d = operation(Seek, "lseek", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(lseek64)(fd, o, w);
}
int stat(const char* path, struct stat* st) {
  if (ours(path)) {
    const Decision d = operation(Stat, "stat", path);
    FAIL_IF(d, -1);
  }
  return REAL(stat)(path, st);
}
int lstat(const char* path, struct stat* st) {
  if (ours(path)) {
    const Decision d = operation(Stat, "lstat", path);
    FAIL_IF(d, -1);
  }
  return REAL(lstat)(path, st);
}
int statx(int dir, const char* path, int flags, unsigned mask, struct statx* st) {
  if (path && path[0] && ours(path) && (dir == AT_FDCWD || path[0] == '/')) {
    const Decision d = operation(Stat, "statx", path);
    FAIL_IF(d, -1);
  }
  return REAL(statx)(dir, path, flags, mask, st);
}
int access(const char* path, int mode) {
  if (ours(path)) {
    const Decision d = operation(Stat, "access", path);
    FAIL_IF(d, -1);
  }
  return REAL(access)(path, mode);
}
int rename(const char* a, const char* b) {
  if (ours(a)) {
    const Decision d = operation(Meta, "rename", a);
    FAIL_IF(d, -1);
  }
  return REAL(rename)(a, b);
}
int mkdir(const char* p, mode_t m) {
  if (ours(p)) {
    const Decision d = operation(Meta, "mkdir", p);
    FAIL_IF(d, -1);
  }
  return REAL(mkdir)(p, m);
}
int unlink(const char* p) {
  if (ours(p)) {
    const Decision d = operation(Meta, "unlink", p);
    FAIL_IF(d, -1);
  }
  return REAL(unlink)(p);
}
int unlinkat(int dir, const char* p, int f) {
  if (ours(p)) {
    const Decision d = operation(Meta, "unlinkat", p);
    FAIL_IF(d, -1);
  }
  return REAL(unlinkat)(dir, p, f);
}
int link(const char* a, const char* b) {
  if (ours(a)) {
    const Decision d = operation(Meta, "link", a);
    FAIL_IF(d, -1);
  }
  return REAL(link)(a, b);
}
int symlink(const char* a, const char* b) {
  if (ours(b)) {
    const Decision d = operation(Meta, "symlink", b);
    FAIL_IF(d, -1);
  }
  return REAL(symlink)(a, b);
}
int ftruncate64(int fd, off64_t n) {
  if (ours(fd)) {
    const Decision d = operation(Meta, "ftruncate", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(ftruncate64)(fd, n);
}
int ftruncate(int fd, off_t n) {
  if (ours(fd)) {
    const Decision d = operation(Meta, "ftruncate", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(ftruncate)(fd, n);
}
int fsync(int fd) {
  if (ours(fd)) {
    const Decision d = operation(Sync, "fsync", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(fsync)(fd);
}
int fdatasync(int fd) {
  if (ours(fd)) {
    const Decision d = operation(Sync, "fdatasync", nullptr);
    FAIL_IF(d, -1);
  }
  return REAL(fdatasync)(fd);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) {
  if (ours(out) || ours(in)) {
    const Decision d = operation(Copy, "sendfile", nullptr);
    FAIL_IF(d, -1);
    n = d.cut ? cut(n) : n;
  }
  return REAL(sendfile64)(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) {
  if (ours(out) || ours(in)) {
    const Decision d = operation(Copy, "sendfile", nullptr);
    FAIL_IF(d, -1);
    n = d.cut ? cut(n) : n;
  }
  return REAL(sendfile)(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned f) {
  if (ours(out) || ours(in)) {
    const Decision d = operation(Copy, "copy_file_range", nullptr);
    FAIL_IF(d, -1);
    n = d.cut ? cut(n) : n;
  }
  return REAL(copy_file_range)(in, io, out, oo, n, f);
}
/// boost::filesystem calls copy_file_range through this.
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long& x : a) {
    x = va_arg(ap, long);
  }
  va_end(ap);
  if (nr == SYS_copy_file_range && (ours(static_cast<int>(a[0])) || ours(static_cast<int>(a[2])))) {
    const Decision d = operation(Copy, "copy_file_range", nullptr);
    FAIL_IF(d, -1);
    if (d.cut) {
      a[4] = static_cast<long>(cut(static_cast<std::size_t>(std::min<unsigned long>(static_cast<unsigned long>(a[4]), 1 << 20))));
    }
  }
  long ret;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = static_cast<int>(-ret);
    return -1;
  }
  return ret;
}
int gettimeofday(struct timeval* tv, void* tz) {
  if (sim_clock_on() && active()) {
    const int64_t ns = wall_ns(current_rank());
    tv->tv_sec = ns / 1000000000;
    tv->tv_usec = (ns / 1000) % 1000000;
    return 0;
  }
  return REAL(gettimeofday)(tv, static_cast<struct timezone*>(tz));
}
}
