#pragma once
#include <functional>
namespace omp {
/// What omp_get_max_threads says, and how often threads are preempted between
/// memory accesses (0: never).
void set_threads(int n, double access_gap);
void team_region(int n, const std::function<void()>& fn);
} // namespace omp
