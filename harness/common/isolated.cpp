#include "common/isolated.hpp"

#include <cerrno>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace iso {

bool in_isolation = false;

std::string isolated(const std::function<std::string()>& fn, std::string& died) {
  died.clear();
  int fd[2];
  if (::pipe(fd) != 0) {
    sim::harness_error("pipe failed");
  }
  const pid_t pid = ::fork();
  if (pid < 0) {
    sim::harness_error("fork failed");
  }
  if (pid == 0) {
    ::close(fd[0]);
    in_isolation = true;
    sim::detach();
    sim::tl_preempt_after = -1;
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {
      ::signal(s, SIG_DFL);
    }
    // The operating system's default action of SIGXCPU ends the process.
    ::signal(SIGXCPU, SIG_DFL);
    rlimit rl{10, 11};
    ::setrlimit(RLIMIT_CPU, &rl);
    const std::string s = fn();
    std::size_t done = 0;
    while (done < s.size()) {
      const ssize_t n = ::write(fd[1], s.data() + done, s.size() - done);
      if (n <= 0) {
        break;
      }
      done += static_cast<std::size_t>(n);
    }
    ::_exit(0);
  }
  ::close(fd[1]);
  std::string out;
  char buf[4096];
  for (;;) {
    const ssize_t n = ::read(fd[0], buf, sizeof(buf));
    if (n < 0 && errno == EINTR) {
      continue;
    }
    if (n <= 0) {
      break;
    }
    out.append(buf, static_cast<std::size_t>(n));
  }
  ::close(fd[0]);
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    died = WTERMSIG(st) == SIGXCPU ? std::string("did not come to an end")
                                   : "ended by signal " + std::to_string(WTERMSIG(st));
  } else if (WEXITSTATUS(st) != 0) {
    died = "exit status " + std::to_string(WEXITSTATUS(st));
  }
  return out;
}

} // namespace iso
