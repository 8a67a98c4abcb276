// C10, C11: input files and log files on 1-5 simulated ranks, over a scratch
// directory whose operations fail, are interrupted, or are the last ones before
// a crash.
#include "sim.hpp"
#include "sim_fs.hpp"

#include "fub/ext/CopyInputFile.hpp"
#include "fub/ext/Log.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/ext/ProgramOptions.hpp"

#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/log/attributes/constant.hpp>
#include <boost/log/core.hpp>
#include <boost/log/sinks/sink.hpp>
#include <boost/make_shared.hpp>

#include <dlfcn.h>
#include <fmt/format.h>
#include <fstream>
#include <optional>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace py = pybind11;
namespace bfs = boost::filesystem;

namespace fub {
std::map<std::string, pybind11::object>
ParsePythonScript(const boost::filesystem::path& path, MPI_Comm comm, const std::vector<std::string>& args);
}

// ---------------------------------------------------------------- one log core per simulated process
namespace {
using Filter = boost::log::filter;
std::map<int, Filter> g_rank_filter;
std::vector<boost::shared_ptr<boost::log::sinks::sink>> g_leaked;

struct RankSink : boost::log::sinks::sink {
  RankSink(int r, boost::shared_ptr<boost::log::sinks::sink> s) : sink(s->is_cross_thread()), rank(r), inner(std::move(s)) {}
  bool will_consume(const boost::log::attribute_value_set& a) override {
    return sim::active() && sim::current_rank() == rank && inner->will_consume(a);
  }
  void consume(const boost::log::record_view& r) override { inner->consume(r); }
  bool try_consume(const boost::log::record_view& r) override { return inner->try_consume(r); }
  void flush() override { inner->flush(); }
  int rank;
  boost::shared_ptr<boost::log::sinks::sink> inner;
};
template <typename F> F next_symbol(const char* mangled) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, mangled)); }
} // namespace

namespace boost {
BOOST_LOG_OPEN_NAMESPACE
void core::add_sink(shared_ptr<sinks::sink> const& s) {
  static auto real = next_symbol<void (*)(core*, shared_ptr<sinks::sink> const&)>(
      "_ZN5boost3log11v2_mt_posix4core8add_sinkERKNS_10shared_ptrINS1_5sinks4sinkEEE");
  auto wrapped = boost::make_shared<RankSink>(sim::active() ? sim::current_rank() : 0, s);
  g_leaked.push_back(wrapped);
  real(this, wrapped);
}
void core::set_filter(filter const& f) {
  static auto real = next_symbol<void (*)(core*, filter const&)>("_ZN5boost3log11v2_mt_posix4core10set_filterERKNS1_6filterE");
  g_rank_filter[sim::active() ? sim::current_rank() : 0] = f;
  real(this, filter([](const attribute_value_set& a) {
         auto it = g_rank_filter.find(sim::active() ? sim::current_rank() : 0);
         return it == g_rank_filter.end() || it->second(a);
       }));
}
BOOST_LOG_CLOSE_NAMESPACE
} // namespace boost

void scenario_init() {
  static py::scoped_interpreter interpreter{};
  static py::gil_scoped_release release{};
}

namespace {
void install_switch_hooks() {
  sim::set_switch_hooks({[]() -> void* { return PyGILState_Check() ? PyEval_SaveThread() : nullptr; },
                         [](void* p) {
                           if (p) {
                             PyEval_RestoreThread(static_cast<PyThreadState*>(p));
                           }
                         }});
}

// ---------------------------------------------------------------- files
std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
void spill(const std::string& p, const std::string& content) {
  bfs::path dir = bfs::path(p).parent_path();
  if (!dir.empty()) {
    bfs::create_directories(dir);
  }
  std::ofstream(p, std::ios::binary) << content;
}
std::string printable(const std::string& s) {
  std::string o;
  for (char c : s.substr(0, 160)) {
    o += c == '\n' ? std::string("\\n") : std::string(1, c >= 32 && c < 127 ? c : '?');
  }
  return o + (s.size() > 160 ? "..." : "");
}
std::vector<sim::FsFault> draw_faults(int nranks, bool benign_only, int span, std::size_t most) {
  std::vector<sim::FsFault> faults;
  const std::size_t n = 1 + sim::choose(most, "nfaults");
  for (std::size_t i = 0; i < n; ++i) {
    sim::FsFault f{};
    f.at = static_cast<int64_t>(sim::choose(static_cast<uint64_t>(span), "at"));
    f.kind = static_cast<sim::FsFaultKind>(benign_only ? 1 + sim::choose(2, "kind") : sim::choose(sim::FsKinds, "kind"));
    f.which = static_cast<int>(sim::choose(5, "errno"));
    f.sticky = sim::chance(0.4, "sticky");
    f.rank = sim::chance(0.5, "any") ? -1 : static_cast<int>(sim::choose(static_cast<uint64_t>(nranks), "rank"));
    faults.push_back(f);
  }
  return faults;
}
std::vector<int> start_ranks(int nranks, const std::function<void(int)>& body) {
  sim::mpi_init(nranks);
  std::vector<int> tasks;
  for (int r = 0; r < nranks; ++r) {
    tasks.push_back(sim::spawn("rank" + std::to_string(r), r, [r, body] {
      py::gil_scoped_acquire gil;
      body(r);
    }));
  }
  return tasks;
}

// ---------------------------------------------------------------- C10
struct Outcome {
  bool ok = false;
  std::string content;
  std::string error;
};

std::string random_bytes(std::size_t n, bool text) {
  std::string s(n, ' ');
  // Content is a function of a drawn seed, so that the tape stays short.
  uint64_t x = sim::choose(1u << 30, "content") * 2654435761u + 1;
  for (char& c : s) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    c = text ? static_cast<char>(x >> 60 ? 'a' + (x >> 33) % 26 : '\n') : static_cast<char>(x >> 33);
  }
  return s;
}

std::size_t draw_size() {
  static const std::size_t edges[] = {0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 65536, 65537};
  switch (sim::choose(3, "sizes")) {
  case 0: return sim::choose(200, "size");
  case 1: return edges[sim::choose(std::size(edges), "edge")];
  default: return sim::choose(40000, "size");
  }
}

enum Obstacle { File, Missing, Directory, Symlink, Dangling, ParentMissing, NObstacles };

void place(const std::string& path, Obstacle o, const std::string& content) {
  switch (o) {
  case File: spill(path, content); break;
  case Directory: bfs::create_directories(path); break;
  case Symlink:
    spill(path + ".target", content);
    if (::symlink(bfs::absolute(path + ".target").c_str(), path.c_str()) != 0) {
      sim::harness_error("symlink");
    }
    break;
  case Dangling:
    if (::symlink("nowhere", path.c_str()) != 0) {
      sim::harness_error("symlink");
    }
    break;
  default: break;
  }
}

/// All ranks alike: everyone has the right answer, or everyone has an error.
void check_outcomes(const char* what, const std::string& path, const std::vector<Outcome>& out, const std::string& want,
                    bool may_fail, bool must_fail) {
  const bool ok = out[0].ok;
  for (std::size_t r = 0; r < out.size(); ++r) {
    if (out[r].ok != ok) {
      sim::violate("ranks-disagree", "%s '%s': rank 0 %s, rank %zu %s (%s%s)", what, path.c_str(), ok ? "succeeded" : "failed", r,
                   ok ? "failed" : "succeeded", out[0].error.c_str(), out[r].error.c_str());
    }
    if (ok && out[r].content != want) {
      sim::violate("wrong-content", "%s '%s': rank %zu got %zu bytes '%s', expected %zu bytes '%s'", what, path.c_str(), r,
                   out[r].content.size(), printable(out[r].content).c_str(), want.size(), printable(want).c_str());
    }
  }
  if (ok && must_fail) {
    sim::violate("failure-not-reported", "%s '%s' succeeded on all ranks although it cannot", what, path.c_str());
  }
  if (!ok && !may_fail) {
    sim::violate("needless-failure", "%s '%s' failed although no operation failed: %s", what, path.c_str(), out[0].error.c_str());
  }
}

struct Script {
  std::string text, repr; // repr: expected values, as render() prints them
  bool bad = false;
};

std::string render(const std::map<std::string, py::object>& o, const std::vector<std::string>& keys) {
  std::string s;
  for (const std::string& k : keys) {
    auto it = o.find(k);
    s += k + "=" + (it == o.end() ? std::string("<none>") : py::repr(it->second).cast<std::string>()) + ";";
  }
  return s;
}

void run_c10() {
  const int nranks = 1 + static_cast<int>(sim::choose(5, "ranks"));
  const int rounds = 1 + static_cast<int>(sim::choose(3, "rounds"));
  const std::string root = sim::fs_enter_scratch();
  sim::describe(std::to_string(nranks) + " ranks, " + std::to_string(rounds) + " files");
  for (int round = 0; round < rounds; ++round) {
    const int kind = static_cast<int>(sim::choose(3, "kind"));
    const std::string base = "in" + std::to_string(round);
    std::string path = (sim::chance(0.3, "sub") ? "d/e/" : "") + base + ".py";
    const bool absolute = sim::chance(0.3, "absolute");
    const Obstacle obstacle = sim::chance(0.25, "obstacle") ? static_cast<Obstacle>(sim::choose(NObstacles, "which")) : File;
    if (obstacle != ParentMissing && path[0] == 'd') {
      bfs::create_directories("d/e");
    }
    const bool must_fail_open = obstacle == Missing || obstacle == Directory || obstacle == Dangling || obstacle == ParentMissing;
    // What happens to the file system: nothing, benign faults, hard faults, or a crash.
    const int weather = static_cast<int>(sim::choose(4, "weather"));
    const std::vector<sim::FsFault> faults =
        weather == 0 ? std::vector<sim::FsFault>{} : draw_faults(nranks, weather == 1, 24, 3);
    const int64_t crash_at = weather == 3 && sim::chance(0.5, "crash") ? static_cast<int64_t>(sim::choose(16, "crashat")) : -1;
    std::vector<Outcome> out(static_cast<std::size_t>(nranks));
    auto attempt = [&out](int r, const std::function<std::string()>& fn) {
      Outcome& o = out[static_cast<std::size_t>(r)];
      try {
        o.content = fn();
        o.ok = true;
      } catch (std::exception& e) {
        o.error = e.what();
      }
    };
    auto play = [&](const std::function<void(int)>& body) {
      sim::fs_plan(faults, crash_at, sim::current_task());
      install_switch_hooks();
      sim::fs_enable(true);
      sim::join(start_ranks(nranks, body));
      sim::fs_enable(false);
      return sim::fs_report();
    };
    if (kind == 0) {
      const std::string content = random_bytes(draw_size(), sim::chance(0.5, "text"));
      place(path, obstacle, content);
      const std::string name = absolute ? root + "/" + path : path;
      const sim::FsReport rep = play([&](int r) {
        attempt(r, [&] { return fub::ReadAndBroadcastFile(name, MPI_COMM_WORLD); });
        MPI_Barrier(MPI_COMM_WORLD);
      });
      if (rep.crashed) {
        continue;
      }
      sim::cover(sim::hash_bytes(content.data(), content.size()) + static_cast<uint64_t>(rep.ops) * 31 + out[0].ok);
      check_outcomes("reading", path, out, content, rep.hard > 0 || must_fail_open, must_fail_open);
      continue;
    }
    // ------------------------------------------------ scripts
    const bool requested = kind == 2 && !sim::chance(0.15, "no-copy");
    std::string target = "input.py";
    switch (sim::choose(5, "target")) {
    case 1: target = "o" + std::to_string(round) + "/copy.py"; break;
    case 2: target = "o" + std::to_string(round) + "/p/q/copy.py"; break;
    case 3: target = root + "/abs" + std::to_string(round) + "/copy.py"; break;
    case 4: target = path; break; // the input file itself
    }
    if (obstacle == ParentMissing && path[0] == 'd') {
      target = "input.py";
    }
    Script s;
    std::vector<std::string> keys;
    std::string expected;
    const std::size_t nvars = 1 + sim::choose(6, "vars");
    for (std::size_t i = 0; i < nvars; ++i) {
      const std::string k = "v" + std::to_string(round) + "_" + std::to_string(i);
      keys.push_back(k);
      const long long x = static_cast<long long>(sim::choose(1000000, "x"));
      switch (sim::choose(4, "type")) {
      case 0: s.text += k + " = " + std::to_string(x) + "\n"; expected += k + "=" + std::to_string(x) + ";"; break;
      case 1: s.text += k + " = 'a" + std::to_string(x) + "'\n"; expected += k + "='a" + std::to_string(x) + "';"; break;
      case 2: s.text += k + " = [" + std::to_string(x) + ", 1.5]\n"; expected += k + "=[" + std::to_string(x) + ", 1.5];"; break;
      default: s.text += k + " = {'k': " + std::to_string(x) + "}\n"; expected += k + "={'k': " + std::to_string(x) + "};"; break;
      }
      if (sim::chance(0.3, "padding")) {
        s.text += "# " + std::string(draw_size(), 'p') + (sim::chance(0.2, "crlf") ? "\r\n" : "\n");
      }
    }
    if (requested) {
      s.text += "InputFileOptions = {'copy_input_file': True, 'file_template': '" + target + "'}\n";
    } else {
      s.text += "InputFileOptions = {}\n";
    }
    s.bad = sim::chance(0.1, "bad-script");
    if (s.bad) {
      static const char* const bad[] = {"raise ValueError('no')\n", "x = (1,\n", "y = 1 / 0\n", "import no_such_module_at_all\n"};
      s.text += bad[sim::choose(4, "bad")];
    }
    const std::string last = "last" + std::to_string(round);
    keys.push_back(last);
    s.text += last + " = 'end'" + (sim::chance(0.5, "newline") ? "\n" : "");
    expected += last + "='end';";
    std::vector<std::string> args;
    for (std::size_t i = 0, n = sim::choose(3, "nargs"); i < n; ++i) {
      args.push_back("a" + std::to_string(sim::choose(100, "arg")));
    }
    if (!args.empty()) {
      keys.push_back("args");
      expected += "args=[";
      for (std::size_t i = 0; i < args.size(); ++i) {
        expected += (i ? ", '" : "'") + args[i] + "'";
      }
      expected += "];";
    }
    place(path, obstacle, s.text);
    // What is in the way of the copy.
    int there = 0;
    std::string before;
    if (requested && target != path) {
      there = static_cast<int>(sim::choose(6, "there"));
      bfs::remove_all(target);
      if (there == 1) {
        before = random_bytes(draw_size(), true);
        spill(target, before);
      } else if (there == 2) {
        bfs::create_directories(target);
      } else if (there == 3 && (obstacle == File || obstacle == Symlink)) {
        bfs::create_directories(bfs::absolute(target).parent_path());
        bfs::remove(target);
        if (::symlink((root + "/" + path).c_str(), target.c_str()) != 0) {
          sim::harness_error("symlink");
        }
      } else if (there == 4 && (obstacle == File || obstacle == Symlink)) {
        bfs::create_directories(bfs::absolute(target).parent_path());
        bfs::remove(target);
        if (::link(bfs::canonical(path).c_str(), target.c_str()) != 0) {
          sim::harness_error("link");
        }
      } else if (there == 5 && bfs::path(target).has_parent_path() && !bfs::exists(bfs::path(target).parent_path())) {
        spill(bfs::path(target).parent_path().string(), "a file where a directory is needed");
      } else {
        there = 0;
      }
    }
    const bool same_file = target == path || there == 3 || there == 4;
    const bool blocked = there == 2 || there == 5 || bfs::is_directory(target);
    const std::string name = absolute ? root + "/" + path : path;
    const bool bare = kind == 1 && sim::chance(0.4, "direct");
    std::vector<std::string> copy_error(static_cast<std::size_t>(nranks));
    std::vector<char> copied(static_cast<std::size_t>(nranks));
    const int extra = kind == 1 ? static_cast<int>(sim::choose(12, "odd-arguments")) : 0;
    const sim::FsReport rep = play([&](int r) {
      std::vector<std::string> argv{"prog", "--config", name};
      if (!args.empty()) {
        argv.push_back("--args");
        argv.insert(argv.end(), args.begin(), args.end());
      }
      if (extra == 10) {
        argv.push_back("--help");
      } else if (extra == 11) {
        argv.push_back("--no-such-option");
      }
      std::vector<char*> raw;
      for (std::string& a : argv) {
        raw.push_back(a.data());
      }
      const int argc = static_cast<int>(raw.size());
      fub::ProgramOptions options;
      attempt(r, [&]() -> std::string {
        if (bare && extra < 10) {
          options = fub::ParsePythonScript(name, MPI_COMM_WORLD, args);
        } else {
          auto o = fub::ParseCommandLine(argc, raw.data());
          if (!o) {
            throw std::runtime_error("no options");
          }
          options = std::move(*o);
        }
        return render(options, keys);
      });
      MPI_Barrier(MPI_COMM_WORLD);
      if (kind == 2 && out[static_cast<std::size_t>(r)].ok) {
        try {
          fub::CopyInputFile(MPI_COMM_WORLD, fub::InputFileOptions(fub::GetOptions(options, "InputFileOptions")), argc, raw.data());
          copied[static_cast<std::size_t>(r)] = 1;
        } catch (std::exception& e) {
          copy_error[static_cast<std::size_t>(r)] = e.what();
        }
        MPI_Barrier(MPI_COMM_WORLD);
      }
      options.clear();
    });
    if (!must_fail_open && slurp(path) != s.text) {
      sim::violate("input-file-changed", "'%s' had %zu bytes before and has %zu bytes after the run; copying to '%s'%s, rank 0: %s", path.c_str(),
                   s.text.size(), slurp(path).size(), target.c_str(), same_file ? " (the same file)" : "", copy_error[0].c_str());
    }
    if (rep.crashed) {
      break;
    }
    sim::cover(sim::hash_bytes(s.text.data(), s.text.size()) + static_cast<uint64_t>(rep.ops) * 31 + out[0].ok);
    const bool must_fail = must_fail_open || s.bad || extra >= 10;
    check_outcomes(bare ? "parsing" : "command line with", path, out, expected, rep.hard > 0 || must_fail, must_fail);
    if (kind == 2 && out[0].ok) {
      if (!requested) {
        if (bfs::exists("input.py") && target != path && round == 0) {
          sim::violate("unrequested-copy", "a copy was made although none was requested");
        }
      } else if (copied[0]) {
        const std::string got = bfs::is_regular_file(target) ? slurp(target) : "<no file>";
        if (got != s.text) {
          sim::violate("incomplete-copy", "the copy '%s' has %zu bytes '%s', the input file has %zu", target.c_str(), got.size(),
                       printable(got).c_str(), s.text.size());
        }
        sim::count("copies checked");
      } else if (rep.hard == 0 && !blocked && !same_file) {
        sim::violate("needless-failure", "copying '%s' to '%s' failed although no operation failed: %s", path.c_str(), target.c_str(),
                     copy_error[0].c_str());
      }
    }
    py::gil_scoped_acquire gil;
    py::module_::import("__main__").attr("__dict__").attr("pop")("args", py::none());
  }
  sim::cover(sim::execution_hash());
  sim::mark_nontrivial();
}

// ---------------------------------------------------------------- C11
struct Message {
  std::optional<std::string> channel;
  int severity;
  std::optional<double> time;
  std::optional<int> level;
  std::string text;
  int64_t wall = 0;
  int64_t cost = 0;
};

struct Entry {
  char type; // f, d, l (symlink)
  std::string content;
  bool operator==(const Entry& o) const { return type == o.type && content == o.content; }
};
using Tree = std::map<std::string, Entry>;

Tree snapshot(const std::string& root) {
  Tree t;
  for (bfs::recursive_directory_iterator it(root), end; it != end; ++it) {
    const std::string p = it->path().string().substr(root.size() + 1);
    const auto st = bfs::symlink_status(it->path());
    if (st.type() == bfs::directory_file) {
      t[p] = {'d', ""};
    } else {
      t[p] = {st.type() == bfs::symlink_file ? 'l' : 'f', slurp(it->path().string())};
    }
  }
  return t;
}

bool is_kept_name(const std::string& p, const std::string& log) {
  if (p.size() <= log.size() + 1 || p.compare(0, log.size(), log) != 0 || p[log.size()] != '.') {
    return false;
  }
  return p.find('/', log.size()) == std::string::npos;
}

const char* const kSeverity[] = {"trace", "debug", "info", "warning", "error", "fatal"};

std::string expected_line_prefix(const Message& m) {
  using namespace boost::posix_time;
  std::ostringstream o;
  const int64_t us = m.wall / 1000;
  o << (from_time_t(static_cast<std::time_t>(us / 1000000)) + microseconds(us % 1000000)) << " -- ";
  if (m.channel) {
    o << '[' << *m.channel << "] ";
  }
  o << '[' << kSeverity[m.severity] << "] ";
  if (m.time) {
    char b[64];
    std::snprintf(b, sizeof b, "[T = %12.6gs] ", *m.time);
    o << b;
  }
  if (m.level) {
    o << "[level = " << *m.level << "] ";
  }
  return o.str();
}

std::string expected_text(const std::vector<Message>& log, std::size_t upto) {
  std::string s;
  for (std::size_t i = 0; i < upto; ++i) {
    const std::string prefix = expected_line_prefix(log[i]);
    s += prefix;
    for (char c : log[i].text) {
      s += c;
      if (c == '\n') {
        s += prefix;
      }
    }
    s += '\n';
  }
  return s;
}

void run_c11() {
  const std::string root = sim::fs_enter_scratch();
  const int starts = 1 + static_cast<int>(sim::choose(4, "starts"));
  static const char* const templates[] = {"{rank:04d}.log", "logs/{rank}.log", "a/b/{rank:03d}/run.log", "{rank}", "logs/x.{rank}", "run.log",
                                          "one/run.log"};
  static const char* const channels[] = {"HDF5", "BlastWaves", "RunSimulation", "CounterOutput", "A", "B"};
  const std::size_t which = sim::choose(std::size(templates), "template");
  const bool single = which >= 5; // the name does not tell ranks apart
  std::string pattern = templates[which];
  if (sim::chance(0.2, "absolute")) {
    pattern = root + "/" + pattern;
  }
  sim::enable_clock(true);
  auto log_name = [&](int r) {
    const std::string full = fmt::format(pattern, fmt::arg("rank", r));
    return full[0] == '/' ? full.substr(root.size() + 1) : full;
  };
  // What earlier runs and other people left there.
  int serial = 0;
  auto old_log = [&] {
    std::string s = "old log " + std::to_string(serial++) + "\n";
    return s + std::string(sim::choose(4, "old-size") * 3000, 'o');
  };
  for (int r = 0; r < (single ? 1 : 4); ++r) {
    const std::string p = log_name(r);
    switch (sim::choose(8, "left-over")) {
    case 0:
    case 1: break;
    case 2:
    case 3: spill(p, old_log()); break;
    case 4: bfs::create_directories(p); break;
    case 5:
      spill(p + "-elsewhere", old_log());
      if (::symlink(bfs::absolute(p + "-elsewhere").c_str(), p.c_str()) != 0) {
        sim::harness_error("symlink");
      }
      break;
    case 6: spill(p, ""); break;
    case 7: spill(p, old_log()); break;
    }
    for (int k = 1; k <= 3; ++k) {
      switch (sim::choose(6, "kept")) {
      case 1:
      case 2: spill(p + "." + std::to_string(k), old_log()); break;
      case 3: bfs::create_directories(p + "." + std::to_string(k)); break;
      default: break;
      }
    }
  }
  std::string story;
  for (int start = 0; start < starts; ++start) {
    const int nranks = 1 + static_cast<int>(sim::choose(4, "ranks"));
    fub::LogOptions options;
    options.file_template = pattern;
    options.which_mpi_ranks_do_log.clear();
    std::set<int> selected;
    if (single) {
      selected.insert(static_cast<int>(sim::choose(static_cast<uint64_t>(nranks), "selected")));
    } else {
      for (int r = 0; r < nranks + 1; ++r) {
        if (sim::chance(0.6, "selected")) {
          selected.insert(r);
        }
      }
    }
    for (int r : selected) {
      options.which_mpi_ranks_do_log.insert(
          options.which_mpi_ranks_do_log.begin() + static_cast<long>(sim::choose(options.which_mpi_ranks_do_log.size() + 1, "order")), r);
    }
    while (!options.which_mpi_ranks_do_log.empty() && sim::chance(0.15, "twice")) {
      options.which_mpi_ranks_do_log.push_back(options.which_mpi_ranks_do_log[0]);
    }
    std::set<std::string> suppressed;
    for (const char* c : channels) {
      if (sim::chance(0.2, "suppressed")) {
        suppressed.insert(c);
        options.channel_blacklist.insert(options.channel_blacklist.begin() +
                                             static_cast<long>(sim::choose(options.channel_blacklist.size() + 1, "order")),
                                         c);
      }
    }
    const bool from_python = sim::chance(0.3, "python-options");
    const int weather = static_cast<int>(sim::choose(4, "weather")); // 0,1: fine, 2: faults, 3: crash
    std::vector<sim::FsFault> faults = weather == 2 ? draw_faults(nranks, false, 30, 3) : std::vector<sim::FsFault>{};
    const int64_t crash_at = weather == 3 ? static_cast<int64_t>(sim::choose(40, "crashat")) : -1;
    std::vector<std::vector<Message>> messages(static_cast<std::size_t>(nranks));
    for (int r = 0; r < nranks; ++r) {
      const std::size_t n = sim::choose(6, "messages");
      for (std::size_t i = 0; i < n; ++i) {
        Message m;
        if (sim::chance(0.7, "channel")) {
          m.channel = channels[sim::choose(std::size(channels), "which-channel")];
        }
        m.severity = static_cast<int>(sim::choose(6, "severity"));
        if (sim::chance(0.5, "time")) {
          m.time = sim::uniform(0, 1e-3, "t") * (sim::chance(0.5, "big") ? 1e9 : 1);
        }
        if (sim::chance(0.4, "level")) {
          m.level = static_cast<int>(sim::choose(4, "lev"));
        }
        m.text = "start " + std::to_string(start) + " rank " + std::to_string(r) + " message " + std::to_string(i);
        switch (sim::choose(5, "text")) {
        case 1: m.text += "\nsecond line"; break;
        case 2: m.text += "\n\n  third line\n"; break;
        case 3: m.text += std::string(1 + sim::choose(9000, "long"), 'x'); break;
        case 4: m.text += " {} %s \t\\"; break;
        }
        m.cost = static_cast<int64_t>(sim::choose(2000000000, "cost"));
        messages[static_cast<std::size_t>(r)].push_back(m);
      }
    }
    if (sim::chance(0.3, "clock-jump")) {
      sim::count("fault:wall-clock-jump");
      for (int r = 0; r < nranks; ++r) {
        sim::jump_wall_clock(r, static_cast<int64_t>(sim::choose(100000000000ll, "jump")) - 50000000000ll);
      }
    }
    story += "start " + std::to_string(start) + ": " + std::to_string(nranks) + " ranks, logging";
    for (int r : selected) {
      story += " " + std::to_string(r);
    }
    story += weather == 2 ? " (faults); " : weather == 3 ? " (crash at operation " + std::to_string(crash_at) + "); " : "; ";
    sim::describe(pattern.substr(pattern[0] == '/' ? root.size() + 1 : 0) + ": " + story);

    const Tree before = snapshot(root);
    std::vector<std::vector<Message>> sent(static_cast<std::size_t>(nranks));
    std::vector<std::string> failed(static_cast<std::size_t>(nranks));
    g_rank_filter.clear();
    boost::log::core::get()->reset_filter();
    sim::fs_plan(faults, crash_at, sim::current_task());
    install_switch_hooks();
    sim::fs_enable(true);
    sim::join(start_ranks(nranks, [&](int r) {
      try {
        if (from_python) {
          fub::ProgramOptions po;
          po["file_template"] = py::cast(options.file_template);
          po["which_mpi_ranks_do_log"] = py::cast(options.which_mpi_ranks_do_log);
          po["channel_blacklist"] = py::cast(options.channel_blacklist);
          fub::InitializeLogging(MPI_COMM_WORLD, fub::LogOptions(po));
        } else {
          fub::InitializeLogging(MPI_COMM_WORLD, options);
        }
      } catch (std::exception& e) {
        failed[static_cast<std::size_t>(r)] = e.what();
        return;
      }
      for (Message m : messages[static_cast<std::size_t>(r)]) {
        sim::yield("before a message");
        sim::advance_ns(m.cost);
        fub::SeverityLogger log = fub::GetLogger(static_cast<boost::log::trivial::severity_level>(m.severity));
        if (m.channel) {
          log.add_attribute("Channel", boost::log::attributes::constant<std::string>(*m.channel));
        }
        if (m.time) {
          log.add_attribute("Time", boost::log::attributes::constant<double>(*m.time));
        }
        if (m.level) {
          log.add_attribute("Level", boost::log::attributes::constant<int>(*m.level));
        }
        m.wall = sim::wall_ns(r);
        BOOST_LOG(log) << m.text;
        if (!m.channel || !suppressed.count(*m.channel)) {
          sent[static_cast<std::size_t>(r)].push_back(m);
        }
      }
    }));
    sim::fs_enable(false);
    const sim::FsReport rep = sim::fs_report();
    if (!rep.crashed) {
      // The processes end: their sinks are flushed and destroyed.
      boost::log::core::get()->flush();
      g_leaked.clear();
    } else {
      // A dead process flushes nothing.
      static auto* dead = new std::vector<boost::shared_ptr<boost::log::sinks::sink>>;
      dead->insert(dead->end(), g_leaked.begin(), g_leaked.end());
      g_leaked.clear();
    }
    boost::log::core::get()->remove_all_sinks();
    sim::count("log messages", static_cast<long long>(sent[0].size()));
    sim::cover(static_cast<uint64_t>(rep.ops) * 64 + selected.size() * 8 + static_cast<uint64_t>(nranks));

    // ---- nothing old was lost
    const Tree after = snapshot(root);
    std::map<std::string, int> current; // log names of this start
    for (int r = 0; r < nranks; ++r) {
      if (selected.count(r)) {
        current[log_name(r)] = r;
      }
    }
    std::set<std::string> all_names;
    for (int r = 0; r < std::max(nranks, 4); ++r) {
      all_names.insert(log_name(r));
    }
    std::set<std::string> accounted;
    for (const auto& [p, e] : before) {
      auto it = after.find(p);
      bool kept = false;
      if (all_names.count(p) && e.type != 'd') {
        for (const auto& [q, f] : after) {
          if (is_kept_name(q, p) && !before.count(q) && f.content == e.content) {
            kept = true;
            accounted.insert(q);
          }
        }
      }
      if (it != after.end() && it->second == e) {
        continue;
      }
      if (all_names.count(p) && e.type != 'd') {
        kept = kept || e.content.empty();
        // A symbolic link to a log may be replaced, its target stays.
        kept = kept || (e.type == 'l' && after.count(p + "-elsewhere") && after.at(p + "-elsewhere").content == e.content &&
                        it != after.end() && it->second.content != e.content && it->second.type == 'f');
      }
      if (!kept) {
        std::string now = it == after.end() ? "is gone" : "now reads '" + printable(it->second.content) + "'";
        sim::violate("log-lost", "%s had '%s' before start %d and %s", p.c_str(), printable(e.content).c_str(), start, now.c_str());
      }
    }
    if (rep.crashed || rep.hard + rep.benign > 0) {
      if (rep.crashed) {
        sim::count("starts crashed");
      }
      continue;
    }
    // ---- exactly the selected ranks have written exactly their messages
    std::set<std::string> fresh;
    for (const auto& [q, f] : after) {
      if (f.type != 'd' && (!before.count(q) || !(before.at(q) == f)) && !accounted.count(q)) {
        fresh.insert(q);
      }
    }
    for (int r = 0; r < nranks; ++r) {
      if (!failed[static_cast<std::size_t>(r)].empty()) {
        sim::violate("needless-failure", "rank %d could not initialise logging although no operation failed: %s", r,
                     failed[static_cast<std::size_t>(r)].c_str());
      }
      if (!selected.count(r)) {
        continue;
      }
      const std::string name = log_name(r);
      std::string file = name;
      auto was = before.find(name);
      if (was != before.end() && was->second.type == 'd') {
        file.clear();
        for (const std::string& q : fresh) {
          if (is_kept_name(q, name)) {
            file = q;
          }
        }
      }
      const std::string want = expected_text(sent[static_cast<std::size_t>(r)], sent[static_cast<std::size_t>(r)].size());
      auto it = after.find(file);
      if (it == after.end()) {
        sim::violate("log-missing", "rank %d was selected but wrote no log file %s", r, name.c_str());
      }
      if (it->second.content != want) {
        std::size_t i = 0;
        while (i < want.size() && i < it->second.content.size() && want[i] == it->second.content[i]) {
          ++i;
        }
        i = i > 40 ? i - 40 : 0;
        sim::violate("log-content", "log %s of rank %d: from byte %zu '%s', expected '%s'", file.c_str(), r, i,
                     printable(it->second.content.substr(std::min(i, it->second.content.size()))).c_str(),
                     printable(want.substr(std::min(i, want.size()))).c_str());
      }
      fresh.erase(file);
    }
    for (const std::string& q : fresh) {
      sim::violate("unexpected-log", "file %s was written although no selected rank owns it: '%s'", q.c_str(), printable(after.at(q).content).c_str());
    }
    sim::count("starts checked completely");
  }
  sim::cover(sim::execution_hash());
  sim::mark_nontrivial();
}
} // namespace

void scenario_run(const std::string& prop) {
  if (prop == "C10") {
    run_c10();
  } else if (prop == "C11") {
    run_c11();
  } else {
    sim::harness_error("unknown property %s", prop.c_str());
  }
}
