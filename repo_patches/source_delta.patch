From d6e8442fce7c368c1005f9a73d1f29256fb89008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 01/47] fix: set every lane of the tail mask in the vectorised
 stable time step

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..d9b0709 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From 4d22adc56cadac52919fdddd7e73408f87168f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 02/47] fix: include the last face in the sequential stable
 time step

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index d9b0709..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
-- 
2.43.0


From 048c4072ec954160c3fe715fb45c604f35a1a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 03/47] fix: first progress line reports the wall time since
 the run started

---
 include/fub/RunSimulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..d45e8d3 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -96,7 +96,7 @@ void RunSimulation(Solver& solver, RunOptions options,
 
   const fub::Duration eps = options.smallest_time_step_size;
   std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-  std::chrono::steady_clock::duration wall_time = wall_time_reference - now;
+  std::chrono::steady_clock::duration wall_time = now - wall_time_reference;
   // Deeply copy the grid for a fallback scenario in case of time step errors
   std::optional<Solver> backup{};
   auto counters = solver.GetCounterRegistry();
-- 
2.43.0


From c420d0de07b52865cb8583dab2ce5a5cfba96eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 04/47] fix: do not repeat outputs after a rejected time step

---
 include/fub/RunSimulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index d45e8d3..2385920 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -183,7 +183,8 @@ void RunSimulation(Solver& solver, RunOptions options,
     } while (
         time_point + eps < options.final_time &&
         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        // The outputs of a state that is restored after a failure are done.
+        (failure_dt || !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From 15edff74b0bb4c4fc9db558ab4aa4b1e46364e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 05/47] fix: neither miss nor repeat interval outputs because
 of rounding errors

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 7c42cb6..70f1b1c 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -26,6 +26,8 @@
 
 #include <pybind11/stl.h>
 
+#include <cmath>
+
 namespace fub {
 
 template <typename GriddingAlgorithm>
@@ -59,6 +61,10 @@ public:
       if (intervals_[i].count() > 0.0) {
         Duration dt(intervals_[i].count() -
                     std::fmod(time_point.count(), intervals_[i].count()));
+        // This multiple is reached already, up to rounding errors.
+        if (dt < 2 * smallest_time_step_size_) {
+          dt += intervals_[i];
+        }
         dt += smallest_time_step_size_;
         next_output_time = std::min<Duration>(next_output_time, time_point + dt);
       }
@@ -77,8 +83,9 @@ public:
     if (time_point == Duration{} ||
         std::any_of(intervals_.begin(), intervals_.end(),
                     [this, time_point](Duration freq) {
-                      return std::abs(
-                                 std::fmod(time_point.count(), freq.count())) <
+                      // The time point might be slightly before a multiple
+                      return std::abs(std::remainder(time_point.count(),
+                                                     freq.count())) <
                              2 * smallest_time_step_size_.count();
                     })) {
       return true;
-- 
2.43.0


From ee1f52ed7f53943715d2c2e53bb4af16227cb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 06/47] fix: fill coarse-fine ghost cells after all levels are
 advanced

---
 include/fub/solver/NoSubcycleSolver.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fub/solver/NoSubcycleSolver.hpp b/include/fub/solver/NoSubcycleSolver.hpp
index e552838..1d849f2 100644
--- a/include/fub/solver/NoSubcycleSolver.hpp
+++ b/include/fub/solver/NoSubcycleSolver.hpp
@@ -68,7 +68,16 @@ Duration NoSubcycleSolver<LevelIntegrator>::ComputeStableDt() {
 template <typename LevelIntegrator>
 Result<void, TimeStepTooLarge>
 NoSubcycleSolver<LevelIntegrator>::AdvanceHierarchy(Duration time_step_size) {
-  return AdvanceLevel(0, time_step_size);
+  Result<void, TimeStepTooLarge> result = AdvanceLevel(0, time_step_size);
+  if (result) {
+    // Coarser levels are advanced after their finer levels. Fill the ghost cells
+    // once every level has reached the new time.
+    Base::GetContext().FillGhostLayerSingleLevel(0);
+    for (int level = 1; Base::LevelExists(level); ++level) {
+      Base::GetContext().FillGhostLayerTwoLevels(level, level - 1);
+    }
+  }
+  return result;
 }
 
 template <typename LevelIntegrator>
@@ -96,11 +105,6 @@ NoSubcycleSolver<LevelIntegrator>::AdvanceLevel(int level,
     Base::CompleteFromCons(level, time_step_size);
   }
   Base::CopyScratchToData(level);
-  if (level == 0) {
-    Base::GetContext().FillGhostLayerSingleLevel(level);
-  } else {
-    Base::GetContext().FillGhostLayerTwoLevels(level, level - 1);
-  }
   return Base::PostAdvanceLevel(level, time_step_size, {0, 1});
 }
 
-- 
2.43.0


From 54b3e50c3ea99467d52ba67201be55ae4dd927ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 07/47] fix: keep the unused lanes of partially loaded arrays
 valid

---
 include/fub/StateArray.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/fub/StateArray.hpp b/include/fub/StateArray.hpp
index 692ec5e..b110d52 100644
--- a/include/fub/StateArray.hpp
+++ b/include/fub/StateArray.hpp
@@ -377,6 +377,10 @@ void LoadN(CompleteArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // Keep the unused lanes valid
+                   for (int i = n; n > 0 && i < x.size(); ++i) {
+                     x(i) = p[n - 1];
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -387,6 +391,9 @@ void LoadN(CompleteArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; n > 0 && j < xs.cols(); ++j) {
+                       xs(i, j) = p[n - 1];
+                     }
                      p += ps.second;
                    }
                  }},
@@ -405,6 +412,10 @@ void LoadN(PrimitiveArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // Keep the unused lanes valid
+                   for (int i = n; n > 0 && i < x.size(); ++i) {
+                     x(i) = p[n - 1];
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -415,6 +426,9 @@ void LoadN(PrimitiveArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; n > 0 && j < xs.cols(); ++j) {
+                       xs(i, j) = p[n - 1];
+                     }
                      p += ps.second;
                    }
                  }},
@@ -433,6 +447,10 @@ void LoadN(ConservativeArray<Eq>& state,
                    for (int i = 0; i < n; ++i) {
                      x(i) = p[i];
                    }
+                   // Keep the unused lanes valid
+                   for (int i = n; n > 0 && i < x.size(); ++i) {
+                     x(i) = p[n - 1];
+                   }
                  },
                  [n](auto& xs, std::pair<const double*, std::ptrdiff_t> ps) {
                    const double* p = ps.first;
@@ -443,6 +461,9 @@ void LoadN(ConservativeArray<Eq>& state,
                      for (int j = 0; j < n; ++j) {
                        xs(i, j) = p[j];
                      }
+                     for (int j = n; n > 0 && j < xs.cols(); ++j) {
+                       xs(i, j) = p[n - 1];
+                     }
                      p += ps.second;
                    }
                  }},
-- 
2.43.0


From 9c38d5512423813956a1467df907a05859e2e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 08/47] fix: HLLEM fluxes of the sequential and the vectorised
 method agree

---
 src/equations/perfect_gas/HllemMethod.hpp | 26 ++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -625,15 +625,17 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +667,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +691,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -989,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 42f9b5152dba8a299861cdbc2669ffc4e2cf8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 09/47] fix: a timer that is assigned to records its own
 measurement first

---
 src/counter/Timer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/counter/Timer.cpp b/src/counter/Timer.cpp
index 3735b86..5fa71a2 100644
--- a/src/counter/Timer.cpp
+++ b/src/counter/Timer.cpp
@@ -34,6 +34,10 @@ Timer::Timer(Timer&& other) noexcept
                                std::chrono::steady_clock::time_point())) {}
 
 Timer& Timer::operator=(Timer&& other) noexcept {
+  if (this != &other && counter_) {
+    this->stop();
+    this->submit();
+  }
   counter_ = std::exchange(other.counter_, nullptr);
   start_time_ =
       std::exchange(other.start_time_, std::chrono::steady_clock::time_point());
-- 
2.43.0


From a89be20d1927e756adc118b55524ae6eec27fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 10/47] fix: gather the same counters in the same order on
 every rank

---
 src/counter/CounterRegistry.cpp | 55 ++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/counter/CounterRegistry.cpp b/src/counter/CounterRegistry.cpp
index 248e76f..2067876 100644
--- a/src/counter/CounterRegistry.cpp
+++ b/src/counter/CounterRegistry.cpp
@@ -21,6 +21,9 @@
 
 #include "fub/counter/CounterRegistry.hpp"
 
+#include <numeric>
+#include <set>
+
 namespace fub {
 
 Counter* CounterRegistry::get(std::string const& name) {
@@ -33,10 +36,49 @@ Timer CounterRegistry::get_timer(std::string const& name) {
   return Timer(*counter);
 }
 
+namespace {
+/// Returns the sorted names of all counters which exist on any rank.
+///
+/// The order of an unordered_map and the set of counters differ between ranks,
+/// but every rank has to gather the same counters in the same order.
+std::vector<std::string>
+GatherNames(const std::unordered_map<std::string, Counter>& database,
+            MPI_Comm comm) {
+  int mpi_size = -1;
+  MPI_Comm_size(comm, &mpi_size);
+
+  std::string local_names;
+  for (const std::pair<const std::string, Counter>& c : database) {
+    local_names.append(c.first.c_str(), c.first.size() + 1);
+  }
+  const int local_size = static_cast<int>(local_names.size());
+
+  std::vector<int> sizes(static_cast<std::size_t>(mpi_size));
+  MPI_Allgather(&local_size, 1, MPI_INT, sizes.data(), 1, MPI_INT, comm);
+  std::vector<int> offsets(sizes.size());
+  std::exclusive_scan(sizes.begin(), sizes.end(), offsets.begin(), 0);
+  std::string all_names(
+      static_cast<std::size_t>(offsets.back() + sizes.back()), '\0');
+  MPI_Allgatherv(local_names.data(), local_size, MPI_CHAR, all_names.data(),
+                 sizes.data(), offsets.data(), MPI_CHAR, comm);
+
+  std::set<std::string> names;
+  for (std::size_t pos = 0; pos < all_names.size();) {
+    const std::size_t end = all_names.find('\0', pos);
+    names.insert(all_names.substr(pos, end - pos));
+    pos = end + 1;
+  }
+  return std::vector<std::string>(names.begin(), names.end());
+}
+} // namespace
+
 std::vector<CounterResult> CounterRegistry::gather_statistics() {
   std::vector<CounterResult> statistics;
-  for (const std::pair<const std::string, Counter>& c : database_) {
-    std::optional<CounterResult> result = c.second.gather_statistics();
+  for (const std::string& name : GatherNames(database_, MPI_COMM_WORLD)) {
+    const auto c = database_.find(name);
+    std::optional<CounterResult> result =
+        c != database_.end() ? c->second.gather_statistics()
+                             : Counter(name).gather_statistics();
     if (result.has_value()) {
       statistics.push_back(*result);
     }
@@ -47,13 +89,10 @@ std::vector<CounterResult> CounterRegistry::gather_statistics() {
 std::unordered_map<std::string, CounterResult>
 CounterRegistry::gather_statistics_map() {
   std::unordered_map<std::string, CounterResult> statistics;
-  for (const std::pair<const std::string, Counter>& c : database_) {
-    std::optional<CounterResult> result = c.second.gather_statistics();
-    if (result.has_value()) {
-      statistics.emplace(result->name, *result);
-    }
+  for (const CounterResult& result : gather_statistics()) {
+    statistics.emplace(result.name, result);
   }
   return statistics;
 }
 
-} // namespace fub
\ No newline at end of file
+} // namespace fub
-- 
2.43.0


From ae712a37bd1f3bcadb1b4e37ff88f60d062ba6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 11/47] fix: do not truncate the input file when it is copied
 onto itself

---
 src/ext/CopyInputFile.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ext/CopyInputFile.cpp b/src/ext/CopyInputFile.cpp
index f7d86d2..100cfb9 100644
--- a/src/ext/CopyInputFile.cpp
+++ b/src/ext/CopyInputFile.cpp
@@ -59,9 +59,18 @@ void CopyInputFile(MPI_Comm comm, const InputFileOptions& options, int argc,
     po::store(po::parse_command_line(argc, argv, desc), vm);
     if (vm.count("config")) {
       config_path = vm["config"].as<std::string>();
-      boost::filesystem::copy_file(
-          config_path, filename,
-          boost::filesystem::copy_option::overwrite_if_exists);
+      // copy_file truncates its target before it reads the source, which may be
+      // the same file. Hence copy to a new file first.
+      const boost::filesystem::path temporary =
+          boost::filesystem::unique_path(filename + ".%%%%%%%%");
+      try {
+        boost::filesystem::copy_file(config_path, temporary);
+        boost::filesystem::rename(temporary, filename);
+      } catch (...) {
+        boost::system::error_code ec;
+        boost::filesystem::remove(temporary, ec);
+        throw;
+      }
     }
   }
 }
-- 
2.43.0


From 8200f25c5fb5f3b3d4e101c55514c52281af0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 12/47] fix: every logging rank creates its directory and keeps
 its own old log

---
 src/ext/Log.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ext/Log.cpp b/src/ext/Log.cpp
index 4a35082..fcb5cd7 100644
--- a/src/ext/Log.cpp
+++ b/src/ext/Log.cpp
@@ -90,7 +90,10 @@ void InitializeLogging(MPI_Comm comm, const LogOptions& options) {
 
   std::string log_filename =
       fmt::format(options.file_template, fmt::arg("rank", rank));
-  if (rank == 0) {
+  auto first = options.which_mpi_ranks_do_log.begin();
+  auto last = options.which_mpi_ranks_do_log.end();
+  auto found = std::find(first, last, rank);
+  if (found != last) {
     // create directory if neccessary
     boost::filesystem::path path(log_filename);
     boost::filesystem::path dir = boost::filesystem::absolute(
@@ -130,12 +133,7 @@ void InitializeLogging(MPI_Comm comm, const LogOptions& options) {
         }
       }
     }
-  }
 
-  auto first = options.which_mpi_ranks_do_log.begin();
-  auto last = options.which_mpi_ranks_do_log.end();
-  auto found = std::find(first, last, rank);
-  if (found != last) {
     using text_sink = boost::log::sinks::synchronous_sink<
         boost::log::sinks::text_ostream_backend>;
     boost::shared_ptr<text_sink> file = boost::make_shared<text_sink>();
-- 
2.43.0


From 0ad99255e20dd74ede38884e3c2fc8f903005b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 13/47] fix: all ranks report when the input file cannot be
 read

---
 src/ext/Mpi.cpp            | 28 ++++++++++++++++------------
 src/ext/ProgramOptions.cpp | 10 +++++++++-
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/ext/Mpi.cpp b/src/ext/Mpi.cpp
index 04428f0..ec14de0 100644
--- a/src/ext/Mpi.cpp
+++ b/src/ext/Mpi.cpp
@@ -19,10 +19,11 @@
 // SOFTWARE.
 
 #include "fub/ext/Mpi.hpp"
-#include "fub/core/assert.hpp"
 
 #include <fmt/format.h>
 #include <fstream>
+#include <limits>
+#include <stdexcept>
 
 namespace fub {
 
@@ -33,21 +34,24 @@ std::string ReadAndBroadcastFile(std::string filepath, MPI_Comm comm) {
   int size = -1;
   if (rank == 0) {
     std::ifstream file(filepath);
-    if (!file) {
-      throw std::runtime_error(
-          fmt::format("Could not open file '{}'.", filepath));
+    char chunk[4096];
+    while (file) {
+      file.read(chunk, sizeof(chunk));
+      buffer.append(chunk, static_cast<std::size_t>(file.gcount()));
+    }
+    if (file.eof() && !file.bad() &&
+        buffer.size() <=
+            static_cast<std::size_t>(std::numeric_limits<int>::max())) {
+      size = static_cast<int>(buffer.size());
     }
-    file.seekg(0, std::ios::end);
-    size = static_cast<int>(file.tellg());
   }
+  // A negative size tells all ranks that the file could not be read.
   MPI_Bcast(&size, 1, MPI_INT, 0, comm);
-  FUB_ASSERT(size >= 0);
-  const auto ssize = static_cast<std::size_t>(size);
-  buffer.resize(ssize);
-  if (rank == 0) {
-    std::ifstream file(filepath);
-    file.read(buffer.data(), size);
+  if (size < 0) {
+    throw std::runtime_error(
+        fmt::format("Could not read file '{}'.", filepath));
   }
+  buffer.resize(static_cast<std::size_t>(size));
   MPI_Bcast(buffer.data(), size, MPI_CHAR, 0, comm);
   return buffer;
 }
diff --git a/src/ext/ProgramOptions.cpp b/src/ext/ProgramOptions.cpp
index 9da62d0..e7932c1 100644
--- a/src/ext/ProgramOptions.cpp
+++ b/src/ext/ProgramOptions.cpp
@@ -49,7 +49,15 @@ Duration GetOptionOr(const ProgramOptions& map, const std::string& name,
 std::map<std::string, pybind11::object>
 ParsePythonScript(const boost::filesystem::path& path, MPI_Comm comm,
                   const std::vector<std::string>& args) {
-  if (!boost::filesystem::is_regular_file(path)) {
+  int rank = -1;
+  MPI_Comm_rank(comm, &rank);
+  int is_regular_file = 0;
+  if (rank == 0) {
+    boost::system::error_code ec;
+    is_regular_file = boost::filesystem::is_regular_file(path, ec);
+  }
+  MPI_Bcast(&is_regular_file, 1, MPI_INT, 0, comm);
+  if (!is_regular_file) {
     throw std::runtime_error(
         fmt::format("Path '{}' is not a regular file", path.string()));
   }
-- 
2.43.0


From 0cd882757f896b3cdede38724d76b23be5ccea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 14/47] fix: radau reports a NaN during the numerical Jacobian
 and leaves y alone

Rejecting the step leads back to the very same evaluation, with y perturbed
and H halved, for ever.
---
 src/ode_solver/radau.f | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index ae48dcc..2d4733a 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -896,7 +896,11 @@ C --- JACOBIAN IS FULL
                CALL FCN(N,X,Y,CONT,RPAR,IPAR)
                DO J=M1+1,N
 C --- pberndt XXX: Check if the rhs returned a NaN
-                 IF (ISNAN(CONT(J))) GOTO 78
+C --- A smaller step does not help here, X and Y stay what they are
+                 IF (ISNAN(CONT(J))) THEN
+                    Y(I)=YSAFE
+                    GOTO 175
+                 END IF
                  FJAC(J-M1,I)=(CONT(J)-Y0(J))/DELT
                END DO
                Y(I)=YSAFE
-- 
2.43.0


From 6f95369ccb3ebab4d9ba752ed15a5c57dd9aaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 15/47] fix: a cloned RadauSolver keeps its settings

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From 7afc9b53d55dca5e5b02b5dd6f559d1f679e9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 16/47] fix: exceptions thrown by the callbacks of RadauSolver
 reach the caller

The callbacks were noexcept, so that an exception terminated the program.
---
 src/ode_solver/RadauSolver.cpp | 52 +++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..fe3ae0a 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -22,6 +22,9 @@
 
 #include "fub/ode_solver/OdeSolverFactory.hpp"
 
+#include <algorithm>
+#include <exception>
+#include <limits>
 #include <string>
 
 namespace fub {
@@ -144,37 +147,63 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     system_type* system;
     feedback_type* feedback;
     jacobian_type* jacobian;
+    // The first exception thrown by one of the above. It must not unwind
+    // through the fortran code.
+    std::exception_ptr exception;
   };
-  IntegrateData_ user_data{&system, feedback, jacobian};
+  IntegrateData_ user_data{&system, feedback, jacobian, nullptr};
 
+  // After an exception NaNs make the fortran code give up.
   auto radau_rhs = [](int* n, double* x_, double* y_, double* dydt_, float*,
                       int* ipar) noexcept {
-    system_type& rhs = *(reinterpret_cast<IntegrateData_*>(ipar)->system);
+    IntegrateData_& data = *reinterpret_cast<IntegrateData_*>(ipar);
     span<double> dydt(dydt_, *n);
     span<const double> y(y_, *n);
     double t = *x_;
-    rhs(dydt, y, t);
+    if (!data.exception) {
+      try {
+        (*data.system)(dydt, y, t);
+        return;
+      } catch (...) {
+        data.exception = std::current_exception();
+      }
+    }
+    std::fill_n(dydt_, *n, std::numeric_limits<double>::quiet_NaN());
   };
 
   auto radau_feedback =
       [](int* /* nr */, double* /* xold_ */, double* x_, double* y_,
          int* /* cont */, int* /* lrc */, int* n, float* /* rpar */, int* ipar,
-         int* /*irtrn */) noexcept {
-    feedback_type& feedback =
-        *(reinterpret_cast<IntegrateData_*>(ipar)->feedback);
+         int* irtrn) noexcept {
+    IntegrateData_& data = *reinterpret_cast<IntegrateData_*>(ipar);
     span<const double> y(y_, *n);
     double t = *x_;
-    feedback(y, t);
+    if (!data.exception) {
+      try {
+        (*data.feedback)(y, t);
+        return;
+      } catch (...) {
+        data.exception = std::current_exception();
+      }
+    }
+    *irtrn = -1;
   };
 
   auto radau_jacobian = [](int* n, double* x_, double* y_, double* dfy,
                            int* ldfy, float* /* rpar */, int* ipar) noexcept {
-    jacobian_type& jacobian =
-        *(reinterpret_cast<IntegrateData_*>(ipar)->jacobian);
+    IntegrateData_& data = *reinterpret_cast<IntegrateData_*>(ipar);
     span<const double> y(y_, *n);
     span<double> dfdy(dfy, *ldfy * *n);
     double t = *x_;
-    jacobian(dfdy, y, t);
+    if (!data.exception) {
+      try {
+        (*data.jacobian)(dfdy, y, t);
+        return;
+      } catch (...) {
+        data.exception = std::current_exception();
+      }
+    }
+    std::fill_n(dfy, *ldfy * *n, std::numeric_limits<double>::quiet_NaN());
   };
 
   // Set-up properties for the fortran code.
@@ -200,6 +229,9 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
                         iwork_space_, // Temporary array of size LIWORK
                         feedback ? radau_feedback : sol_t{nullptr},
                         jacobian ? radau_jacobian : jac_t{nullptr});
+  if (user_data.exception) {
+    std::rethrow_exception(user_data.exception);
+  }
 
   //  IDID= 1  COMPUTATION SUCCESSFUL,
   //  IDID= 2  COMPUT. SUCCESSFUL (INTERRUPTED BY SOLOUT)
-- 
2.43.0


From 38aba558ce8716a24446d71698e3c8c01c46b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 17/47] fix: the second attempt of RadauSolver integrates both
 halves of the interval

It passed the address of the right hand side where the callbacks expect the
user data, integrated [t0, (t0 + dt)/2] twice and started from the state at
which the first attempt gave up. The feedback sees every time only once.
---
 src/ode_solver/RadauSolver.cpp | 83 +++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fe3ae0a..235b2a4 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -150,8 +150,14 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     // The first exception thrown by one of the above. It must not unwind
     // through the fortran code.
     std::exception_ptr exception;
+    // The last time which was passed to feedback. A second attempt passes the
+    // same times again.
+    bool has_feedback_time;
+    double feedback_time;
+    double direction;
   };
-  IntegrateData_ user_data{&system, feedback, jacobian, nullptr};
+  IntegrateData_ user_data{&system, feedback, jacobian, nullptr,
+                           false,   0.0,      dt < 0.0 ? -1.0 : 1.0};
 
   // After an exception NaNs make the fortran code give up.
   auto radau_rhs = [](int* n, double* x_, double* y_, double* dydt_, float*,
@@ -179,6 +185,12 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     span<const double> y(y_, *n);
     double t = *x_;
     if (!data.exception) {
+      if (data.has_feedback_time &&
+          !(data.direction * (t - data.feedback_time) > 0.0)) {
+        return;
+      }
+      data.has_feedback_time = true;
+      data.feedback_time = t;
       try {
         (*data.feedback)(y, t);
         return;
@@ -217,21 +229,28 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_[12] = 7; // Start off with order 13
   work_space_[2] = jacobian_threshhold;
 
-  int idid = call_radau(radau_rhs,                          // RHS function
-                        reinterpret_cast<int*>(&user_data), // IPAR
-                        t0,                                 // Initial time
-                        t,                      // Final integration time
-                        y0,                     // Initial y array and output
-                        initial_time_step_size, // Initial step size
-                        relative_tolerance,     // Tolerances
-                        absolute_tolerance,     //
-                        work_space_,            // Temporary array of size LWORK
-                        iwork_space_, // Temporary array of size LIWORK
-                        feedback ? radau_feedback : sol_t{nullptr},
-                        jacobian ? radau_jacobian : jac_t{nullptr});
-  if (user_data.exception) {
-    std::rethrow_exception(user_data.exception);
-  }
+  auto integrate_from_to = [&](double t_0, double t_end) {
+    const int result =
+        call_radau(radau_rhs,                          // RHS function
+                   reinterpret_cast<int*>(&user_data), // IPAR
+                   t_0,                                // Initial time
+                   t_end,                  // Final integration time
+                   y0,                     // Initial y array and output
+                   initial_time_step_size, // Initial step size
+                   relative_tolerance,     // Tolerances
+                   absolute_tolerance,     //
+                   work_space_,            // Temporary array of size LWORK
+                   iwork_space_,           // Temporary array of size LIWORK
+                   feedback ? radau_feedback : sol_t{nullptr},
+                   jacobian ? radau_jacobian : jac_t{nullptr});
+    if (user_data.exception) {
+      std::rethrow_exception(user_data.exception);
+    }
+    return result;
+  };
+
+  const std::vector<double> initial_y(y0.begin(), y0.end());
+  int idid = integrate_from_to(t0, t);
 
   //  IDID= 1  COMPUTATION SUCCESSFUL,
   //  IDID= 2  COMPUT. SUCCESSFUL (INTERRUPTED BY SOLOUT)
@@ -249,37 +268,19 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
     throw radau_error::InputIsNotConsistent{};
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
-  case -3:
-    idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                      t0,                     // Initial time
-                      t / 2,                  // Final integration time
-                      y0,                     // Initial y array and output
-                      initial_time_step_size, // Initial step size
-                      relative_tolerance,     // Tolerances
-                      absolute_tolerance,     //
-                      work_space_,            // Temporary array of size LWORK
-                      iwork_space_,           // Temporary array of size LIWORK
-                      feedback ? radau_feedback : sol_t{nullptr},
-                      jacobian ? radau_jacobian : jac_t{nullptr});
+  case -3: {
+    // Try again in two halves
+    const double t_mid = t0 + 0.5 * dt;
+    std::copy(initial_y.begin(), initial_y.end(), y0.begin());
+    idid = integrate_from_to(t0, t_mid);
     if (idid > 0) {
-      idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
-                        y0,                     // Initial y array and output
-                        initial_time_step_size, // Initial step size
-                        relative_tolerance,     // Tolerances
-                        absolute_tolerance,     //
-                        work_space_,            // Temporary array of size LWORK
-                        iwork_space_, // Temporary array of size LIWORK
-                        feedback ? radau_feedback : sol_t{nullptr},
-                        jacobian ? radau_jacobian : jac_t{nullptr});
+      idid = integrate_from_to(t_mid, t);
       if (idid > 0) {
         break;
       }
     }
     throw radau_error::StepSizeBecomesTooSmall{};
+  }
   case -4:
     throw radau_error::MatrixIsRepeatedlySingular{};
   case -42:
-- 
2.43.0


From 0aa5eae869207e5901a206bae2f428cbd5f578a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 18/47] fix: radau does not read HACC and ERRACC before they
 are set

If the first accepted step changes the order the second one took the step size
and error of the last step from uninitialised memory.
---
 src/ode_solver/radau.f | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index 2d4733a..79890cc 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -806,6 +806,8 @@ C ---------- CONSTANTS ---------
       HOPT=H
       FACCON=1.D0
       NSING=0
+      NEWT=0
+      HACC=0.D0
       XOLD=X
       IF (IOUT.NE.0) THEN
           IRTRN=1
@@ -1610,7 +1612,7 @@ C --- STEP IS ACCEPTED
          NACCPT=NACCPT+1
          IF (PRED.AND..NOT.CHANGE) THEN
 C       --- PREDICTIVE CONTROLLER OF GUSTAFSSON
-            IF (NACCPT.GT.1) THEN
+            IF (NACCPT.GT.1.AND.HACC.NE.0.D0) THEN
                FACGUS=(HACC/H)*(ERR**2/ERRACC)**EXPO/SAFE
                FACGUS=MAX(FACR,MIN(FACL,FACGUS))
                QUOT=MAX(QUOT,FACGUS)
-- 
2.43.0


From d27e196b7a7fabcc929544a18b8ac4da70774012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 19/47] fix: radau does not accept a step whose error estimate
 is NaN

---
 src/ode_solver/dc_decsol.f | 12 ++++++++----
 src/ode_solver/radau.f     |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ode_solver/dc_decsol.f b/src/ode_solver/dc_decsol.f
index 12a6432..721c4a7 100644
--- a/src/ode_solver/dc_decsol.f
+++ b/src/ode_solver/dc_decsol.f
@@ -1513,7 +1513,8 @@ C
       DO  I=1,N
          ERR=ERR+(CONT(I)/SCAL(I))**2
       END DO
-      ERR=MAX(SQRT(ERR/N),1.D-10)
+      ERR=SQRT(ERR/N)
+      IF (ERR.LT.1.D-10) ERR=1.D-10
 C
       IF (ERR.LT.1.D0) RETURN
       IF (FIRST.OR.REJECT) THEN
@@ -1601,7 +1602,8 @@ C -----------------------------------
           DO I=1,N
              ERR=ERR+(CONT(I)/SCAL(I))**2
           END DO
-          ERR=MAX(SQRT(ERR/N),1.D-10)
+          ERR=SQRT(ERR/N)
+          IF (ERR.LT.1.D-10) ERR=1.D-10
        END IF
        RETURN
 C -----------------------------------------------------------
@@ -1899,7 +1901,8 @@ C
       DO  I=1,N
          ERR=ERR+(CONT(I)/SCAL(I))**2
       END DO
-      ERR=MAX(SQRT(ERR/N),1.D-10)
+      ERR=SQRT(ERR/N)
+      IF (ERR.LT.1.D-10) ERR=1.D-10
 C
       IF (ERR.LT.1.D0) RETURN
       IF (FIRST.OR.REJECT) THEN
@@ -1987,7 +1990,8 @@ C -----------------------------------
           DO I=1,N
              ERR=ERR+(CONT(I)/SCAL(I))**2
           END DO
-          ERR=MAX(SQRT(ERR/N),1.D-10)
+          ERR=SQRT(ERR/N)
+          IF (ERR.LT.1.D-10) ERR=1.D-10
        END IF
        RETURN
 C
diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index 79890cc..9a9f4c1 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -1592,6 +1592,8 @@ C *** *** *** *** *** *** ***
       END IF
       END IF
       END IF
+C --- A NaN in the error estimate accepts nothing
+      IF (ISNAN(ERR)) GOTO 78
 C --- pberndt XXX: Check if the Y update generated a NaN
       DO I=1,N
           IF (ISNAN(Y(I))) GOTO 78
-- 
2.43.0


From 55851b09d7049a37a838377041635e862f1019e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 20/47] fix: assigning a FlameMasterReactor assigns its array
 state, too

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ce97221..7a5f6d3 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -362,6 +362,7 @@ FlameMasterReactor& FlameMasterReactor::
 operator=(FlameMasterReactor&& other) noexcept {
   mechanism_ = std::move(other.mechanism_);
   state_ = std::move(other.state_);
+  array_state_ = std::move(other.array_state_);
   ode_solver_ = std::move(other.ode_solver_);
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
-- 
2.43.0


From 13c8eb48ccc41b63db291f0425826a3457bb1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 21/47] fix: setting the density of a FlameMasterReactor
 updates its moles

---
 include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp | 2 +-
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp         | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp b/include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp
index 8ab0cb0..84765fa 100644
--- a/include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp
+++ b/include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp
@@ -277,7 +277,7 @@ public:
    *
    * The units are \f$kg/m^3\f$
    */
-  void SetDensity(double density) { state_.density = density; }
+  void SetDensity(double density);
   void SetDensityArray(Array1d density) { array_state_.density = density; }
 
   /**
diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 7a5f6d3..9027674 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -888,6 +888,11 @@ void FlameMasterReactor::SetMassFractionsArray(
   UpdateMolesFromMassFractions(array_state_, state_);
 }
 
+void FlameMasterReactor::SetDensity(double density) {
+  state_.density = density;
+  UpdateMolesFromMassFractions(state_);
+}
+
 void FlameMasterReactor::SetTemperature(double temp) {
   *state_.temperature = temp;
   UpdateThermoState(*mechanism_, state_, temp);
-- 
2.43.0


From f2b3266a154edb425eadb8db34d9c89295a7340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 22/47] fix: an exception of a reactor's observer reaches the
 caller

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 9027674..94451f9 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -388,7 +388,7 @@ struct AdvanceFeedback {
   // FlameMasterState* state;
   function_ref<void(span<const double>, double, FlameMasterReactor*)> feedback;
 
-  void operator()(span<const double> y, double t) const noexcept {
+  void operator()(span<const double> y, double t) const {
     // if (y.data() != state->molesStorage.data()) {
     // FUB_ASSERT(y.size() == state->molesStorage.size());
     // reactor->setMoleFractions(y.subspan(1));
-- 
2.43.0


From 746fa1e3bcd91810a49bf06140165057e2c45b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 23/47] fix: AdvanceAndFindMaxdT compares each step with the
 previous one

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 94451f9..c9e8e97 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -450,6 +450,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
       const double dT =
           (data->oldTemperature - newTemperature) / (data->oldTime - t);
       data->oldTime = t;
+      data->oldTemperature = newTemperature;
       if (data->maxdT < dT) {
         data->maxdT = dT;
         data->argmaxdT = t;
-- 
2.43.0


From ce30ae9794ced7b6be7abc57cbfa0c3cfb52b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 24/47] fix: advancing a FlameMasterReactor leaves the
 enthalpies of its temperature

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index c9e8e97..a1addfe 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -412,6 +412,7 @@ void FlameMasterReactor::Advance(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 void FlameMasterReactor::Advance(
@@ -432,6 +433,7 @@ void FlameMasterReactor::Advance(
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
 }
 
 struct AdvanceAndFindMaxdTData {
@@ -466,6 +468,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_);
   return data.argmaxdT;
 }
 
-- 
2.43.0


From 666270c8b95ec56e3b99a925716ad2558cebda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 25/47] fix: SetMassFractionsArray drops negative values like
 SetMassFractions

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index a1addfe..af593f9 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -882,7 +882,7 @@ void FlameMasterReactor::SetMassFractionsArray(
     const ArrayXd& newMassFractions) {
   Array1d sum = Array1d::Zero();
   for (int i = 0; i < array_state_.massFractions.rows(); ++i) {
-    array_state_.massFractions.row(i) = newMassFractions.row(i).abs();
+    array_state_.massFractions.row(i) = newMassFractions.row(i).max(0.0);
     sum += array_state_.massFractions.row(i);
   }
   sum = (sum > 0.0).select(sum, 1.0);
-- 
2.43.0


From 08406a67f16cb487a44e6ded65438bc27c4a4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 26/47] fix: the array state of a new FlameMasterReactor starts
 with defined mass fractions

---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index af593f9..3271573 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -334,6 +334,7 @@ FlameMasterReactor::FlameMasterReactor(const FlameMasterMechanism& mechanism)
   UpdateMolesFromMassFractions(state_);
   SetTemperature(300.);
   SetPressure(101325.);
+  array_state_.massFractions.setZero();
   array_state_.massFractions.row(0) = Array1d::Constant(1.0);
   SetTemperatureArray(Array1d::Constant(300.0));
   SetPressureArray(Array1d::Constant(101325.0));
-- 
2.43.0


From 505a99a144c206e8f033a61bb8bde6be6b8722d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 27/47] fix: signal velocities of ideal gas mixtures do not
 depend on the execution policy

---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From bfa6e6181aa50853ec71626d38f79053b3c8a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 28/47] fix: boundary conditions fill ghost cells beyond
 periodic boundaries of their directions, too

---
 .../fub/AMReX/boundary_condition/ConstantBoundary.hpp  |  5 ++++-
 .../AMReX/boundary_condition/ReflectiveBoundary.hpp    | 10 ++++++++--
 src/AMReX/boundary_condition/TransmissiveBoundary.cpp  |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp b/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
index 34c3ea0..09b6a19 100644
--- a/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/ConstantBoundary.hpp
@@ -57,7 +57,10 @@ template <typename Equation> struct ConstantBoundary {
     int idir = static_cast<int>(dir);
     if (!geom.isPeriodic(idir)) {
       const int ngrow = mf.nGrow(idir);
-      ::amrex::Box fully_grown_box = geom.growNonPeriodicDomain(ngrow);
+      // Fill the ghost cells in the other directions, too. Those beyond a
+      // periodic boundary have already been filled, but their corners have not.
+      ::amrex::Box fully_grown_box =
+          ::amrex::grow(geom.Domain(), mf.nGrowVect());
       ::amrex::Box grown_dir_box = ::amrex::grow(fully_grown_box, idir, -ngrow);
       ::amrex::BoxList boundaries = ::amrex::complementIn(
           fully_grown_box, ::amrex::BoxList{grown_dir_box});
diff --git a/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp b/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
index 5e8866d..17be195 100644
--- a/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp
@@ -67,10 +67,16 @@ ReflectiveBoundary<Tag, Equation>::ReflectiveBoundary(Tag,
 template <typename Tag, typename Equation>
 void ReflectiveBoundary<Tag, Equation>::FillBoundary(
     ::amrex::MultiFab& mf, const ::amrex::Geometry& geom) {
+  if (geom.isPeriodic(int(dir_))) {
+    return;
+  }
   const int ngrow = mf.nGrow(int(dir_));
-  ::amrex::Box grown_box = geom.growNonPeriodicDomain(ngrow);
+  // Fill the ghost cells in the other directions, too. Those beyond a periodic
+  // boundary have already been filled, but their corners have not.
+  ::amrex::Box grown_box = ::amrex::grow(geom.Domain(), mf.nGrowVect());
+  ::amrex::Box grown_dir_box = ::amrex::grow(grown_box, int(dir_), -ngrow);
   ::amrex::BoxList boundaries =
-      ::amrex::complementIn(grown_box, ::amrex::BoxList{geom.Domain()});
+      ::amrex::complementIn(grown_box, ::amrex::BoxList{grown_dir_box});
   if (boundaries.isEmpty()) {
     return;
   }
diff --git a/src/AMReX/boundary_condition/TransmissiveBoundary.cpp b/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
index cbac25f..c37882b 100644
--- a/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
+++ b/src/AMReX/boundary_condition/TransmissiveBoundary.cpp
@@ -62,7 +62,10 @@ void TransmissiveBoundary::FillBoundary(::amrex::MultiFab& mf,
   int idir = static_cast<int>(dir);
   if (!geom.isPeriodic(idir)) {
     const int ngrow = mf.nGrow(idir);
-    ::amrex::Box fully_grown_box = geom.growNonPeriodicDomain(ngrow);
+    // Fill the ghost cells in the other directions, too. Those beyond a periodic
+    // boundary have already been filled, but their corners have not.
+    ::amrex::Box fully_grown_box =
+        ::amrex::grow(geom.Domain(), mf.nGrowVect());
     ::amrex::Box grown_dir_box = ::amrex::grow(fully_grown_box, idir, -ngrow);
     ::amrex::BoxList boundaries =
         ::amrex::complementIn(fully_grown_box, ::amrex::BoxList{grown_dir_box});
-- 
2.43.0


From f2e4955c0a754659202c95c72c409b40a87279d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 29/47] fix: a new refinement level interpolates all components

---
 src/AMReX/GriddingAlgorithm.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index fe82817..450bd5d 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -216,17 +216,14 @@ void GriddingAlgorithm::MakeNewLevelFromCoarse(
   PatchLevel fine_level(level, Duration(time_point), box_array,
                         distribution_mapping, hierarchy_.GetDataDescription(),
                         hierarchy_.GetMFInfo());
-  const int cons_start = hierarchy_.GetDataDescription().first_cons_component;
-  const int n_cons_components =
-      hierarchy_.GetDataDescription().n_cons_components;
   ::amrex::Vector<::amrex::BCRec> bcr(static_cast<std::size_t>(n_comps));
   BoundaryConditionRef fine_boundary(boundary_condition_, *this, level);
   BoundaryConditionRef coarse_boundary(boundary_condition_, *this, level - 1);
   ::amrex::InterpFromCoarseLevel(
-      fine_level.data, time_point, coarse_level.data, cons_start, cons_start,
-      n_cons_components, hierarchy_.GetGeometry(level - 1),
-      hierarchy_.GetGeometry(level), fine_boundary, 0, coarse_boundary, 0,
-      {AMREX_D_DECL(2, 2, 2)}, &::amrex::pc_interp, bcr, 0);
+      fine_level.data, time_point, coarse_level.data, 0, 0, n_comps,
+      hierarchy_.GetGeometry(level - 1), hierarchy_.GetGeometry(level),
+      coarse_boundary, 0, fine_boundary, 0,
+      hierarchy_.GetRatioToCoarserLevel(level), &::amrex::pc_interp, bcr, 0);
   if (level == hierarchy_.GetNumberOfLevels()) {
     hierarchy_.PushBack(std::move(fine_level));
   } else {
-- 
2.43.0


From 40c799ad8863ab12d4f29afd8121d18561144afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 30/47] fix: refinement levels which vanish at once are cleared
 in any order

---
 src/AMReX/GriddingAlgorithm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index 450bd5d..537672d 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -246,9 +246,12 @@ void GriddingAlgorithm::RemakeLevel(
   hierarchy_.GetPatchLevel(level_number) = std::move(new_level);
 }
 
-void GriddingAlgorithm::ClearLevel([[maybe_unused]] int level) {
-  FUB_ASSERT(0 < level && level + 1 == hierarchy_.GetNumberOfLevels());
-  hierarchy_.PopBack();
+void GriddingAlgorithm::ClearLevel(int level) {
+  FUB_ASSERT(0 < level);
+  // AmrCore clears vanished levels from coarse to fine.
+  while (level < hierarchy_.GetNumberOfLevels()) {
+    hierarchy_.PopBack();
+  }
 }
 
 const AnyBoundaryCondition&
-- 
2.43.0


From 5fa15613d39aedc454003aa7c85e8c90720e6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 31/47] fix: vectorised stable time step sizes consider faces
 between tiles

---
 include/fub/AMReX/FluxMethodAdapter.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fub/AMReX/FluxMethodAdapter.hpp b/include/fub/AMReX/FluxMethodAdapter.hpp
index 85a331d..4661bf2 100644
--- a/include/fub/AMReX/FluxMethodAdapter.hpp
+++ b/include/fub/AMReX/FluxMethodAdapter.hpp
@@ -85,7 +85,10 @@ Duration FluxMethodAdapter<Tag, FM>::ComputeStableDt(IntegratorContext& context,
       for (::amrex::MFIter mfi(scratch,
                                ::amrex::IntVect(AMREX_D_DECL(1024000, 8, 8)));
            mfi.isValid(); ++mfi) {
-        const ::amrex::Box cell_box = mfi.growntilebox();
+        // Include the faces between this tile and its neighbours.
+        const ::amrex::Box cell_box =
+            ::amrex::grow(mfi.growntilebox(), int(dir), GetStencilWidth()) &
+            scratch[mfi].box();
         auto&& equation = flux_method_->GetEquation();
         View<const Complete<Equation>> states =
             MakeView<const Complete<Equation>>(scratch[mfi], equation,
-- 
2.43.0


From 1e21f344f05c64d8642ff284fec04976345d2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 32/47] fix: regrid_frequency limits regridding instead of the
 ghost cell exchange

---
 include/fub/solver/SubcycleFineFirstSolver.hpp | 5 +----
 src/AMReX/IntegratorContext.cpp                | 2 +-
 src/AMReX/cutcell/IntegratorContext.cpp        | 2 +-
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/fub/solver/SubcycleFineFirstSolver.hpp b/include/fub/solver/SubcycleFineFirstSolver.hpp
index c831ad4..23c4497 100644
--- a/include/fub/solver/SubcycleFineFirstSolver.hpp
+++ b/include/fub/solver/SubcycleFineFirstSolver.hpp
@@ -178,10 +178,7 @@ template <typename LevelIntegrator>
 Result<void, TimeStepTooLarge>
 SubcycleFineFirstSolver<LevelIntegrator>::AdvanceHierarchy(Duration dt) {
   Result<void, TimeStepTooLarge> result = AdvanceLevel(0, dt, {0, 1});
-  const int num_step = Base::GetCycles();
-  int fill_boundary_frequency =
-      Base::GetContext().GetOptions().regrid_frequency;
-  if (result && num_step % fill_boundary_frequency == 0) {
+  if (result) {
     Base::GetContext().FillGhostLayerSingleLevel(0);
     int this_level = 1;
     while (Base::GetContext().LevelExists(this_level)) {
diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index 7006104..4ffa966 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -612,7 +612,7 @@ int IntegratorContext::PreAdvanceLevel(int level_num, Duration dt,
   const std::size_t l = static_cast<std::size_t>(level_num);
   const int max_level = GetPatchHierarchy().GetMaxNumberOfLevels();
   int regrid_level = max_level;
-  if (subcycle.first == 0) {
+  if (subcycle.first == 0 && GetCycles(0) % options_.regrid_frequency == 0) {
     if (data_[l].regrid_time_point != data_[l].time_point) {
       regrid_level = gridding_->RegridAllFinerlevels(level_num);
       for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
diff --git a/src/AMReX/cutcell/IntegratorContext.cpp b/src/AMReX/cutcell/IntegratorContext.cpp
index 49a0621..ea42ca2 100644
--- a/src/AMReX/cutcell/IntegratorContext.cpp
+++ b/src/AMReX/cutcell/IntegratorContext.cpp
@@ -814,7 +814,7 @@ int IntegratorContext::PreAdvanceLevel(int level_num, Duration dt,
   const std::size_t l = static_cast<std::size_t>(level_num);
   const int max_level = GetPatchHierarchy().GetMaxNumberOfLevels();
   int level_which_changed = max_level;
-  if (subcycle.first == 0) {
+  if (subcycle.first == 0 && GetCycles(0) % options_.regrid_frequency == 0) {
     if (data_[l].regrid_time_point != data_[l].time_point) {
       level_which_changed = gridding_->RegridAllFinerlevels(level_num);
       for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
-- 
2.43.0


From 899924c539e019528091f4b2311d175bee0205e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 33/47] fix: regridding in the middle of a step does not reset
 coarser levels, a restarted run regrids as the uninterrupted one

---
 src/AMReX/IntegratorContext.cpp         | 12 +++++++-----
 src/AMReX/cutcell/IntegratorContext.cpp | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index 4ffa966..2a8bb38 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -334,13 +334,15 @@ void IntegratorContext::ResetHierarchyConfiguration(int first_level) {
        ++level_num) {
     CopyDataToScratch(level_num);
   }
-  for (std::size_t i = 0; i < data_.size(); ++i) {
+  // Coarser levels than first_level keep their time points. They might be in the
+  // middle of their subcycles and ahead of the patch hierarchy.
+  for (std::size_t i = static_cast<std::size_t>(first_level); i < data_.size();
+       ++i) {
     const auto level = static_cast<int>(i);
     data_[i].cycles =
         gridding_->GetPatchHierarchy().GetPatchLevel(level).cycles;
     data_[i].time_point =
         gridding_->GetPatchHierarchy().GetPatchLevel(level).time_point;
-    data_[i].regrid_time_point = data_[i].time_point;
   }
 }
 
@@ -615,12 +617,12 @@ int IntegratorContext::PreAdvanceLevel(int level_num, Duration dt,
   if (subcycle.first == 0 && GetCycles(0) % options_.regrid_frequency == 0) {
     if (data_[l].regrid_time_point != data_[l].time_point) {
       regrid_level = gridding_->RegridAllFinerlevels(level_num);
-      for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
-        data_[lvl].regrid_time_point = data_[lvl].time_point;
-      }
       if (regrid_level < max_level) {
         ResetHierarchyConfiguration(regrid_level);
       }
+      for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
+        data_[lvl].regrid_time_point = data_[lvl].time_point;
+      }
     }
   }
   return regrid_level;
diff --git a/src/AMReX/cutcell/IntegratorContext.cpp b/src/AMReX/cutcell/IntegratorContext.cpp
index ea42ca2..d9ab000 100644
--- a/src/AMReX/cutcell/IntegratorContext.cpp
+++ b/src/AMReX/cutcell/IntegratorContext.cpp
@@ -554,13 +554,15 @@ void IntegratorContext::ResetHierarchyConfiguration(int first_level) {
        ++level_num) {
     CopyDataToScratch(level_num);
   }
-  for (std::size_t i = 0; i < data_.size(); ++i) {
+  // Coarser levels than first_level keep their time points. They might be in the
+  // middle of their subcycles and ahead of the patch hierarchy.
+  for (std::size_t i = static_cast<std::size_t>(first_level); i < data_.size();
+       ++i) {
     const auto level = static_cast<int>(i);
     data_[i].cycles =
         gridding_->GetPatchHierarchy().GetPatchLevel(level).cycles;
     data_[i].time_point =
         gridding_->GetPatchHierarchy().GetPatchLevel(level).time_point;
-    data_[i].regrid_time_point = data_[i].time_point;
   }
 }
 
@@ -817,12 +819,12 @@ int IntegratorContext::PreAdvanceLevel(int level_num, Duration dt,
   if (subcycle.first == 0 && GetCycles(0) % options_.regrid_frequency == 0) {
     if (data_[l].regrid_time_point != data_[l].time_point) {
       level_which_changed = gridding_->RegridAllFinerlevels(level_num);
-      for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
-        data_[lvl].regrid_time_point = data_[lvl].time_point;
-      }
       if (level_which_changed < max_level) {
         ResetHierarchyConfiguration(level_which_changed);
       }
+      for (std::size_t lvl = l; lvl < data_.size(); ++lvl) {
+        data_[lvl].regrid_time_point = data_[lvl].time_point;
+      }
     }
   }
   return level_which_changed;
-- 
2.43.0


From 75ce43704975ce2f278fd6f27eabf395c6678931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 34/47] fix: remade refinement levels keep their cycles

---
 src/AMReX/GriddingAlgorithm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AMReX/GriddingAlgorithm.cpp b/src/AMReX/GriddingAlgorithm.cpp
index 537672d..3d9550f 100644
--- a/src/AMReX/GriddingAlgorithm.cpp
+++ b/src/AMReX/GriddingAlgorithm.cpp
@@ -243,6 +243,7 @@ void GriddingAlgorithm::RemakeLevel(
   PatchLevel new_level(level_number, Duration(time_point), box_array,
                        distribution_mapping, desc, hierarchy_.GetMFInfo());
   FillMultiFabFromLevel(new_level.data, level_number);
+  new_level.cycles = hierarchy_.GetPatchLevel(level_number).cycles;
   hierarchy_.GetPatchLevel(level_number) = std::move(new_level);
 }
 
-- 
2.43.0


From af1aedde34d4cbf9b716de98ad91af5248d8e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 35/47] fix: copies of an IntegratorContext know their time
 point and cycles

---
 src/AMReX/IntegratorContext.cpp         | 8 ++++++++
 src/AMReX/cutcell/IntegratorContext.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index 2a8bb38..bb95ddf 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -255,11 +255,19 @@ const ::amrex::Geometry& IntegratorContext::GetGeometry(int level) const {
 
 Duration IntegratorContext::GetTimePoint(int level) const {
   const std::size_t l = static_cast<std::size_t>(level);
+  // There is no level data before the first ResetHierarchyConfiguration, e.g. in
+  // a copy.
+  if (l >= data_.size()) {
+    return GetPatchHierarchy().GetTimePoint(level);
+  }
   return data_[l].time_point;
 }
 
 std::ptrdiff_t IntegratorContext::GetCycles(int level) const {
   const std::size_t l = static_cast<std::size_t>(level);
+  if (l >= data_.size()) {
+    return GetPatchHierarchy().GetCycles(level);
+  }
   return data_[l].cycles;
 }
 
diff --git a/src/AMReX/cutcell/IntegratorContext.cpp b/src/AMReX/cutcell/IntegratorContext.cpp
index d9ab000..3235b05 100644
--- a/src/AMReX/cutcell/IntegratorContext.cpp
+++ b/src/AMReX/cutcell/IntegratorContext.cpp
@@ -366,11 +366,19 @@ const ::amrex::Geometry& IntegratorContext::GetGeometry(int level) const {
 
 Duration IntegratorContext::GetTimePoint(int level) const {
   const std::size_t l = static_cast<std::size_t>(level);
+  // There is no level data before the first ResetHierarchyConfiguration, e.g. in
+  // a copy.
+  if (l >= data_.size()) {
+    return GetPatchHierarchy().GetTimePoint(level);
+  }
   return data_[l].time_point;
 }
 
 std::ptrdiff_t IntegratorContext::GetCycles(int level) const {
   const std::size_t l = static_cast<std::size_t>(level);
+  if (l >= data_.size()) {
+    return GetPatchHierarchy().GetCycles(level);
+  }
   return data_[l].cycles;
 }
 
-- 
2.43.0


From e66a197cfe9a8e155a5ab57d81410ebfd79d4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 36/47] fix: WriteCheckpointFile reports an incomplete header

---
 src/AMReX/PatchHierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index d357e60..c58bf78 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -358,6 +358,10 @@ void WriteCheckpointFile(const std::string checkpointname,
       hier.GetPatchLevel(level).data.boxArray().writeOn(hout);
       hout << '\n';
     }
+    hout.close();
+    if (!hout.good()) {
+      ::amrex::Abort("WriteCheckpointFile: could not write " + header);
+    }
   }
   // Force processors to wait until directory has been built.
   ::amrex::ParallelDescriptor::Barrier();
-- 
2.43.0


From 5d645df96d7753718bed5259a836830fef89bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 37/47] fix: HDF5 outputs of zeros on refined levels are not
 replaced by coarser values

---
 src/AMReX/output/WriteHdf5Impl.cpp | 38 +++++++++++-------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/AMReX/output/WriteHdf5Impl.cpp b/src/AMReX/output/WriteHdf5Impl.cpp
index 89253fa..fedad72 100644
--- a/src/AMReX/output/WriteHdf5Impl.cpp
+++ b/src/AMReX/output/WriteHdf5Impl.cpp
@@ -60,22 +60,17 @@ void WriteHdf5UnRestricted(
                    static_cast<int>(local_fab.size()), MPI_DOUBLE, MPI_SUM, 0,
                    comm);
       if (level > 0) {
-        for (int comp = 1; comp < level_data.nComp(); ++comp) {
-          ForEachIndex(domain, [&](auto... is) {
-            ::amrex::IntVect fine_i{int(is)...};
-            ::amrex::IntVect coarse_i = fine_i;
-            coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-            if (fab(fine_i, 0) == 0.0) {
-              fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
-            }
-          });
-        }
+        const ::amrex::BoxArray& covered =
+            hierarchy.GetPatchLevel(ilvl).box_array;
         ForEachIndex(domain, [&](auto... is) {
           ::amrex::IntVect fine_i{int(is)...};
+          if (covered.contains(fine_i)) {
+            return;
+          }
           ::amrex::IntVect coarse_i = fine_i;
           coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-          if (fab(fine_i, 0) == 0.0) {
-            fab(fine_i, 0) = fabs[level - 1](coarse_i, 0);
+          for (int comp = 0; comp < level_data.nComp(); ++comp) {
+            fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
           }
         });
       }
@@ -143,22 +138,17 @@ void WriteHdf5RestrictedToBox(
                    static_cast<int>(local_fab.size()), MPI_DOUBLE, MPI_SUM, 0,
                    comm);
       if (level > 0) {
-        for (int comp = 1; comp < level_data.nComp(); ++comp) {
-          ForEachIndex(domain, [&](auto... is) {
-            ::amrex::IntVect fine_i{int(is)...};
-            ::amrex::IntVect coarse_i = fine_i;
-            coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-            if (fab(fine_i, 0) == 0.0) {
-              fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
-            }
-          });
-        }
+        const ::amrex::BoxArray& covered =
+            hierarchy.GetPatchLevel(ilvl).box_array;
         ForEachIndex(domain, [&](auto... is) {
           ::amrex::IntVect fine_i{int(is)...};
+          if (covered.contains(fine_i)) {
+            return;
+          }
           ::amrex::IntVect coarse_i = fine_i;
           coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-          if (fab(fine_i, 0) == 0.0) {
-            fab(fine_i, 0) = fabs[level - 1](coarse_i, 0);
+          for (int comp = 0; comp < level_data.nComp(); ++comp) {
+            fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
           }
         });
       }
-- 
2.43.0


From febceb4430d3db1c267fd2c774869a7539e4fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 38/47] fix: all records of a HDF5 output have the extents of
 the finest possible level

---
 src/AMReX/output/WriteHdf5Impl.cpp | 60 ++++++++++++++++++------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/AMReX/output/WriteHdf5Impl.cpp b/src/AMReX/output/WriteHdf5Impl.cpp
index fedad72..12e44c3 100644
--- a/src/AMReX/output/WriteHdf5Impl.cpp
+++ b/src/AMReX/output/WriteHdf5Impl.cpp
@@ -38,30 +38,37 @@ void WriteHdf5UnRestricted(
       boost::filesystem::create_directories(dir);
     }
   }
+  // All records of a file share the index space of the finest possible level,
+  // no matter how many levels exist at the time of the output.
   const std::size_t n_level =
-      static_cast<std::size_t>(hierarchy.GetNumberOfLevels());
+      static_cast<std::size_t>(hierarchy.GetMaxNumberOfLevels());
   std::vector<::amrex::FArrayBox> fabs{};
   fabs.reserve(n_level);
   for (std::size_t level = 0; level < n_level; ++level) {
     const int ilvl = static_cast<int>(level);
     const ::amrex::Geometry& level_geom = hierarchy.GetGeometry(ilvl);
     ::amrex::Box domain = level_geom.Domain();
-    const ::amrex::MultiFab& level_data = hierarchy.GetPatchLevel(ilvl).data;
-    ::amrex::FArrayBox local_fab(domain, level_data.nComp());
+    const bool level_exists = ilvl < hierarchy.GetNumberOfLevels();
+    const int n_components = hierarchy.GetDataDescription().n_state_components;
+    ::amrex::FArrayBox local_fab(domain, n_components);
     local_fab.setVal(0.0);
-    ForEachFab(level_data, [&](const ::amrex::MFIter& mfi) {
-      const ::amrex::FArrayBox& patch_data = level_data[mfi];
-      local_fab.copy(patch_data);
-    });
+    if (level_exists) {
+      const ::amrex::MultiFab& level_data = hierarchy.GetPatchLevel(ilvl).data;
+      ForEachFab(level_data, [&](const ::amrex::MFIter& mfi) {
+        const ::amrex::FArrayBox& patch_data = level_data[mfi];
+        local_fab.copy(patch_data);
+      });
+    }
     if (rank == 0) {
-      ::amrex::FArrayBox& fab = fabs.emplace_back(domain, level_data.nComp());
+      ::amrex::FArrayBox& fab = fabs.emplace_back(domain, n_components);
       fab.setVal(0.0);
       ::MPI_Reduce(local_fab.dataPtr(), fab.dataPtr(),
                    static_cast<int>(local_fab.size()), MPI_DOUBLE, MPI_SUM, 0,
                    comm);
       if (level > 0) {
-        const ::amrex::BoxArray& covered =
-            hierarchy.GetPatchLevel(ilvl).box_array;
+        const ::amrex::BoxArray covered =
+            level_exists ? hierarchy.GetPatchLevel(ilvl).box_array
+                         : ::amrex::BoxArray{};
         ForEachIndex(domain, [&](auto... is) {
           ::amrex::IntVect fine_i{int(is)...};
           if (covered.contains(fine_i)) {
@@ -69,7 +76,7 @@ void WriteHdf5UnRestricted(
           }
           ::amrex::IntVect coarse_i = fine_i;
           coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-          for (int comp = 0; comp < level_data.nComp(); ++comp) {
+          for (int comp = 0; comp < n_components; ++comp) {
             fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
           }
         });
@@ -102,8 +109,10 @@ void WriteHdf5RestrictedToBox(
       boost::filesystem::create_directories(dir);
     }
   }
+  // All records of a file share the index space of the finest possible level,
+  // no matter how many levels exist at the time of the output.
   const std::size_t n_level =
-      static_cast<std::size_t>(hierarchy.GetNumberOfLevels());
+      static_cast<std::size_t>(hierarchy.GetMaxNumberOfLevels());
   std::vector<::amrex::Geometry> geoms{};
   std::vector<::amrex::MultiFab> data{};
   std::vector<::amrex::FArrayBox> fabs{};
@@ -123,23 +132,28 @@ void WriteHdf5RestrictedToBox(
   for (std::size_t level = 0; level < n_level; ++level) {
     const int ilvl = static_cast<int>(level);
     ::amrex::Box domain = boxes[level];
-    const ::amrex::MultiFab& level_data = hierarchy.GetPatchLevel(ilvl).data;
-    ::amrex::FArrayBox local_fab(domain, level_data.nComp());
+    const bool level_exists = ilvl < hierarchy.GetNumberOfLevels();
+    const int n_components = hierarchy.GetDataDescription().n_state_components;
+    ::amrex::FArrayBox local_fab(domain, n_components);
     local_fab.setVal(0.0);
-    ForEachFab(level_data, [&](const ::amrex::MFIter& mfi) {
-      const ::amrex::FArrayBox& patch_data = level_data[mfi];
-      const ::amrex::Box box = mfi.tilebox() & domain;
-      local_fab.copy(patch_data, box);
-    });
+    if (level_exists) {
+      const ::amrex::MultiFab& level_data = hierarchy.GetPatchLevel(ilvl).data;
+      ForEachFab(level_data, [&](const ::amrex::MFIter& mfi) {
+        const ::amrex::FArrayBox& patch_data = level_data[mfi];
+        const ::amrex::Box box = mfi.tilebox() & domain;
+        local_fab.copy(patch_data, box);
+      });
+    }
     if (rank == 0) {
-      ::amrex::FArrayBox& fab = fabs.emplace_back(domain, level_data.nComp());
+      ::amrex::FArrayBox& fab = fabs.emplace_back(domain, n_components);
       fab.setVal(0.0);
       ::MPI_Reduce(local_fab.dataPtr(), fab.dataPtr(),
                    static_cast<int>(local_fab.size()), MPI_DOUBLE, MPI_SUM, 0,
                    comm);
       if (level > 0) {
-        const ::amrex::BoxArray& covered =
-            hierarchy.GetPatchLevel(ilvl).box_array;
+        const ::amrex::BoxArray covered =
+            level_exists ? hierarchy.GetPatchLevel(ilvl).box_array
+                         : ::amrex::BoxArray{};
         ForEachIndex(domain, [&](auto... is) {
           ::amrex::IntVect fine_i{int(is)...};
           if (covered.contains(fine_i)) {
@@ -147,7 +161,7 @@ void WriteHdf5RestrictedToBox(
           }
           ::amrex::IntVect coarse_i = fine_i;
           coarse_i.coarsen(hierarchy.GetRatioToCoarserLevel(ilvl));
-          for (int comp = 0; comp < level_data.nComp(); ++comp) {
+          for (int comp = 0; comp < n_components; ++comp) {
             fab(fine_i, comp) = fabs[level - 1](coarse_i, comp);
           }
         });
-- 
2.43.0


From 4db54a7f02f134e95430c79079746ddccc1a4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 39/47] fix: xlower of a HDF5 output is the lower corner of its
 box

---
 src/AMReX/PatchHierarchy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index c58bf78..5a8d84f 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -479,7 +479,9 @@ void CreateHdf5Database(const std::string& name, const ::amrex::FArrayBox& fab,
 
     H5Attribute xlower(H5Acreate2(dataset, "xlower", H5T_IEEE_F64LE, spacedim,
                                   H5P_DEFAULT, H5P_DEFAULT));
-    H5Awrite(xlower, H5T_IEEE_F64LE, geom.ProbLo());
+    double lower[AMREX_SPACEDIM]{};
+    geom.LoNode(fab.box().smallEnd(), lower);
+    H5Awrite(xlower, H5T_IEEE_F64LE, lower);
 
     H5Attribute cell_size(H5Acreate2(dataset, "cell_size", H5T_IEEE_F64LE,
                                      spacedim, H5P_DEFAULT, H5P_DEFAULT));
-- 
2.43.0


From 04c375f51377356db1d6bf92c0d12402fb124104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 40/47] fix: GatherStates returns zeros of refined levels

---
 src/AMReX/PatchHierarchy.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/AMReX/PatchHierarchy.cpp b/src/AMReX/PatchHierarchy.cpp
index 5a8d84f..cb419da 100644
--- a/src/AMReX/PatchHierarchy.cpp
+++ b/src/AMReX/PatchHierarchy.cpp
@@ -702,9 +702,10 @@ std::vector<double> GatherStates(
   const int nlevel = hierarchy.GetNumberOfLevels();
   const int finest_level = nlevel - 1;
   const int ncomp = hierarchy.GetDataDescription().n_state_components;
+  // The last component tells whether a level covers the point.
   std::vector<double> buffer(
-      static_cast<std::size_t>(xs.extent(1) * ncomp * nlevel));
-  mdspan<double, 3> states(buffer.data(), xs.extent(1), ncomp, nlevel);
+      static_cast<std::size_t>(xs.extent(1) * (ncomp + 1) * nlevel));
+  mdspan<double, 3> states(buffer.data(), xs.extent(1), ncomp + 1, nlevel);
   for (int level = 0; level < nlevel; ++level) {
     const ::amrex::MultiFab& level_data = hierarchy.GetPatchLevel(level).data;
     const ::amrex::Geometry& level_geom = hierarchy.GetGeometry(level);
@@ -724,6 +725,7 @@ std::vector<double> GatherStates(
             for (int comp = 0; comp < level_data.nComp(); ++comp) {
               states(k, comp, level) = level_data[mfi](iv, comp);
             }
+            states(k, ncomp, level) = 1.0;
           }
         }
       });
@@ -733,11 +735,12 @@ std::vector<double> GatherStates(
   ::MPI_Allreduce(buffer.data(), global_buffer.data(),
                   static_cast<int>(global_buffer.size()), MPI_DOUBLE, MPI_SUM,
                   comm);
-  states = mdspan<double, 3>(global_buffer.data(), xs.extent(1), ncomp, nlevel);
+  states =
+      mdspan<double, 3>(global_buffer.data(), xs.extent(1), ncomp + 1, nlevel);
   for (int level = 1; level < nlevel; ++level) {
     for (int comp = 0; comp < ncomp; ++comp) {
       for (int i = 0; i < xs.extent(1); ++i) {
-        if (states(i, comp, level) == 0.0) {
+        if (states(i, ncomp, level) == 0.0) {
           states(i, comp, level) = states(i, comp, level - 1);
         }
       }
-- 
2.43.0


From 9023fffc3f429611d7dfc70b8de431e410facd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 41/47] fix: a copied IntegratorContext keeps its feedback and
 user-defined stable time step

---
 src/AMReX/IntegratorContext.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index bb95ddf..2fdfa6f 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -174,7 +174,9 @@ IntegratorContext::IntegratorContext(
 IntegratorContext::IntegratorContext(const IntegratorContext& other)
     : options_{other.options_}, gridding_{std::make_shared<GriddingAlgorithm>(
                                     *other.gridding_)},
-      data_{}, method_{other.method_} {}
+      data_{}, method_{other.method_},
+      post_advance_hierarchy_feedback_{other.post_advance_hierarchy_feedback_},
+      user_compute_stable_dt_{other.user_compute_stable_dt_} {}
 
 IntegratorContext& IntegratorContext::IntegratorContext::
 operator=(const IntegratorContext& other) {
-- 
2.43.0


From bcfb9c0cd940c76ffc97af5e1309339c071f194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 42/47] fix: ghost cells are filled again after a feedback has
 changed boundary states

---
 src/AMReX/IntegratorContext.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/AMReX/IntegratorContext.cpp b/src/AMReX/IntegratorContext.cpp
index 2fdfa6f..9b3209f 100644
--- a/src/AMReX/IntegratorContext.cpp
+++ b/src/AMReX/IntegratorContext.cpp
@@ -711,6 +711,12 @@ void IntegratorContext::PostAdvanceHierarchy(Duration dt) {
   }
   if (post_advance_hierarchy_feedback_) {
     post_advance_hierarchy_feedback_(*this, dt);
+    // Boundary conditions may depend on what the feedback has changed. Without
+    // this the next step sees the old ghost cells, unless it is repeated.
+    FillGhostLayerSingleLevel(0);
+    for (int level = 1; level < nlevels; ++level) {
+      FillGhostLayerTwoLevels(level, level - 1);
+    }
   }
 }
 
-- 
2.43.0


From 12ec126b1b2f3cefd3b774450c623a61b1e66b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 43/47] fix: a copied DiffusionSourceTerm keeps its options and
 constants

---
 include/fub/AMReX/DiffusionSourceTerm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/AMReX/DiffusionSourceTerm.hpp b/include/fub/AMReX/DiffusionSourceTerm.hpp
index 4b1b76a..1027ad1 100644
--- a/include/fub/AMReX/DiffusionSourceTerm.hpp
+++ b/include/fub/AMReX/DiffusionSourceTerm.hpp
@@ -59,11 +59,13 @@ public:
       const DiffusionSourceTermOptions& options = DiffusionSourceTermOptions());
 
   DiffusionSourceTerm(const DiffusionSourceTerm& other)
-      : equation_{other.equation_} {}
+      : options_{other.options_}, equation_{other.equation_} {}
   DiffusionSourceTerm(DiffusionSourceTerm&& other) = default;
 
   DiffusionSourceTerm& operator=(const DiffusionSourceTerm& other) {
+    options_ = other.options_;
     equation_ = other.equation_;
+    constants_ = other.constants_;
     return *this;
   }
   DiffusionSourceTerm& operator=(DiffusionSourceTerm&& other) = default;
-- 
2.43.0


From 66b523951bcf3c1a9c0b8fc703e63282dfecc769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 44/47] fix: pressure valves ignore patches away from their
 inlet

---
 .../boundary_condition/GenericPressureValveBoundary.hpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp b/include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp
index a726ed4..51597b2 100644
--- a/include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp
+++ b/include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp
@@ -345,6 +345,11 @@ void GenericPressureValveBoundary<
   const ::amrex::Box domain_box = geom.Domain();
   const ::amrex::Box inner_box =
       GetInnerBox(domain_box, options_.side, options_.dir, 1);
+  // Most boxes of a refined level are away from the valve. Nothing is known
+  // about the inner pressure, and nothing has to be filled, if all of them are.
+  if (!mf.boxArray().intersects(inner_box, mf.nGrowVect())) {
+    return;
+  }
   const double inner_pressure =
       GetMeanValueInBox(mf, inner_box, comps_.pressure);
 
-- 
2.43.0


From 9894dea17ce5bec8b8b8b6122c50b73d48ad4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 45/47] fix: GetMeanValueInBox counts each cell once

---
 src/AMReX/MultiFabUtilities.cpp | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/AMReX/MultiFabUtilities.cpp b/src/AMReX/MultiFabUtilities.cpp
index 454cd20..213268e 100644
--- a/src/AMReX/MultiFabUtilities.cpp
+++ b/src/AMReX/MultiFabUtilities.cpp
@@ -75,18 +75,29 @@ void ReallocLike(::amrex::MultiFab& mf, const ::amrex::MultiFab& other) {
 
 double GetMeanValueInBox(const ::amrex::MultiFab& data, const ::amrex::Box& box,
                          int component) {
-  const auto volume = box.volume();
-  OmpLocal<double> omp_local_value{double{0.0}};
-  ForEachFab(execution::openmp, data, [&](const ::amrex::MFIter& mfi) {
-    const ::amrex::FArrayBox& fab = data[mfi];
-    const ::amrex::Box subbox = box & fab.box();
-    *omp_local_value += fab.sum(subbox, component) / volume;
-  });
-  const double local_value = omp_local_value.Accumulate();
-  double average_value = 0.0;
-  ::MPI_Allreduce(&local_value, &average_value, 1, MPI_DOUBLE, MPI_SUM,
-                  ::amrex::ParallelContext::CommunicatorAll());
-  return average_value;
+  // Ghost cells are copies of other cells, which must not be counted twice.
+  // They are only used where data has no valid cell within the box.
+  for (const ::amrex::IntVect& ngrow :
+       {::amrex::IntVect::TheZeroVector(), data.nGrowVect()}) {
+    OmpLocal<double> omp_local_value{double{0.0}};
+    OmpLocal<double> omp_local_volume{double{0.0}};
+    ForEachFab(execution::openmp, data, [&](const ::amrex::MFIter& mfi) {
+      const ::amrex::Box subbox = box & mfi.growntilebox(ngrow);
+      if (subbox.ok()) {
+        *omp_local_value += data[mfi].sum(subbox, component);
+        *omp_local_volume += static_cast<double>(subbox.numPts());
+      }
+    });
+    const double local[2] = {omp_local_value.Accumulate(),
+                             omp_local_volume.Accumulate()};
+    double global[2] = {0.0, 0.0};
+    ::MPI_Allreduce(local, global, 2, MPI_DOUBLE, MPI_SUM,
+                    ::amrex::ParallelContext::CommunicatorAll());
+    if (global[1] > 0.0) {
+      return global[0] / global[1];
+    }
+  }
+  return 0.0;
 }
 
 } // namespace fub::amrex
\ No newline at end of file
-- 
2.43.0


From 5af3723631170843eb8fcf0bc02691369e0b7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 46/47] fix: isentropic pressure changes keep the composition
 of a gas mixture

---
 include/fub/equations/PerfectGasMix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..b16ea65 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -633,8 +633,8 @@ private:
     q.density = rho_new;
     q.momentum = rhou_new;
     q.energy = rhoE_new;
-    q.species = q0.species;
-    q.passive_scalars = q0.passive_scalars;
+    q.species = q0.species * (rho_new / rho_old);
+    q.passive_scalars = q0.passive_scalars * (rho_new / rho_old);
     q.pressure = p_new;
     q.speed_of_sound = std::sqrt(eq.gamma * p_new / rho_new);
   }
-- 
2.43.0


From bd68394dd6e27a52e3a4641877b846ca1302aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 47/47] fix: stable time steps on AMReX grids consider the
 faces of each patch only

---
 include/fub/AMReX/AxialFluxMethodAdapter.hpp | 8 ++++++--
 include/fub/AMReX/FluxMethodAdapter.hpp      | 9 +++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fub/AMReX/AxialFluxMethodAdapter.hpp b/include/fub/AMReX/AxialFluxMethodAdapter.hpp
index 14af2d5..ee5f880 100644
--- a/include/fub/AMReX/AxialFluxMethodAdapter.hpp
+++ b/include/fub/AMReX/AxialFluxMethodAdapter.hpp
@@ -101,7 +101,10 @@ AxialFluxMethodAdapter<Tag, FM>::ComputeStableDt(IntegratorContext& context,
       for (::amrex::MFIter mfi(scratch,
                                ::amrex::IntVect(AMREX_D_DECL(1024000, 8, 8)));
            mfi.isValid(); ++mfi) {
-        const ::amrex::Box cell_box = mfi.growntilebox();
+        // Only the faces of this tile count. Ghost cells further out may be out
+        // of date.
+        const ::amrex::Box cell_box =
+            ::amrex::grow(mfi.tilebox(), int(dir), GetStencilWidth());
         auto&& equation = flux_method_->GetEquation();
         View<const Complete<Equation>> states =
             MakeView<const Complete<Equation>>(scratch[mfi], equation,
@@ -114,7 +117,8 @@ AxialFluxMethodAdapter<Tag, FM>::ComputeStableDt(IntegratorContext& context,
       return Duration(local_count);
     } else {
       for (::amrex::MFIter mfi(scratch); mfi.isValid(); ++mfi) {
-        const ::amrex::Box cell_box = mfi.growntilebox();
+        const ::amrex::Box cell_box =
+            ::amrex::grow(mfi.tilebox(), int(dir), GetStencilWidth());
         auto&& equation = flux_method_->GetEquation();
         View<const Complete<Equation>> states =
             MakeView<const Complete<Equation>>(scratch[mfi], equation,
diff --git a/include/fub/AMReX/FluxMethodAdapter.hpp b/include/fub/AMReX/FluxMethodAdapter.hpp
index 4661bf2..4ff9b23 100644
--- a/include/fub/AMReX/FluxMethodAdapter.hpp
+++ b/include/fub/AMReX/FluxMethodAdapter.hpp
@@ -85,10 +85,10 @@ Duration FluxMethodAdapter<Tag, FM>::ComputeStableDt(IntegratorContext& context,
       for (::amrex::MFIter mfi(scratch,
                                ::amrex::IntVect(AMREX_D_DECL(1024000, 8, 8)));
            mfi.isValid(); ++mfi) {
-        // Include the faces between this tile and its neighbours.
+        // Only the faces of this tile count. Ghost cells further out may be out
+        // of date.
         const ::amrex::Box cell_box =
-            ::amrex::grow(mfi.growntilebox(), int(dir), GetStencilWidth()) &
-            scratch[mfi].box();
+            ::amrex::grow(mfi.tilebox(), int(dir), GetStencilWidth());
         auto&& equation = flux_method_->GetEquation();
         View<const Complete<Equation>> states =
             MakeView<const Complete<Equation>>(scratch[mfi], equation,
@@ -101,7 +101,8 @@ Duration FluxMethodAdapter<Tag, FM>::ComputeStableDt(IntegratorContext& context,
       return Duration(local_count);
     } else {
       for (::amrex::MFIter mfi(scratch); mfi.isValid(); ++mfi) {
-        const ::amrex::Box cell_box = mfi.growntilebox();
+        const ::amrex::Box cell_box =
+            ::amrex::grow(mfi.tilebox(), int(dir), GetStencilWidth());
         auto&& equation = flux_method_->GetEquation();
         View<const Complete<Equation>> states =
             MakeView<const Complete<Equation>>(scratch[mfi], equation,
-- 
2.43.0

