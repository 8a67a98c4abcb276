// File-system seam: libc's file operations on paths in a scratch directory are
// scheduling points, crash points and fault points of the simulation.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {
/// Creates an empty scratch directory and makes it the working directory.
std::string fs_enter_scratch();
/// Operations are intercepted only while this is on.
void fs_enable(bool on);
enum FsFaultKind { FsError, FsShort, FsEintr, FsKinds };
struct FsFault {
  int64_t at;     // the at-th intercepted operation since fs_plan ...
  FsFaultKind kind;
  int which;      // selects among the error codes that fit the operation
  bool sticky;    // every later operation of the same sort fails alike
  int rank;       // only on this rank, -1: any
};
/// crash_at < 0: never. The operation the machine crashes at is not executed.
void fs_plan(std::vector<FsFault> faults, int64_t crash_at, int survivor);
struct FsReport {
  int64_t ops = 0;
  long long hard = 0;   // errors returned
  long long benign = 0; // short or interrupted reads and writes
  bool crashed = false;
};
FsReport fs_report();
} // namespace sim
