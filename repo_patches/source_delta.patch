From 8c5fe7eca7700fd13d6acc14fbc1c8f9b9a71c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 01/54] fix: give every simulated annealing thread its own
 random generator

multi_simulated_annealing runs simulated_annealing in several threads, all of
which drew from one unsynchronised function-local static generator.
---
 .../fiction/algorithms/optimization/simulated_annealing.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..a91dcb7 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,10 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    // one generator per thread: multi_simulated_annealing runs several instances concurrently
+    thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From 999023a63fcefed9e02a3e97057c7df34f0f5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 02/54] fix: give every QuickSim thread its own random
 generator in the adjacent search

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..5e67141 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1597,7 +1597,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        thread_local std::mt19937_64            generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From 7e20c8212e6a9a2e5353f2b95201a9d88401dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 03/54] fix: never empty a charge space during the ground state
 space construction

---
 .../algorithms/simulation/sidb/ground_state_space.hpp      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
index 0438324..16323e6 100644
--- a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
+++ b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
@@ -762,6 +762,13 @@ class ground_state_space_impl
         // perform potential bound analysis on every multiset in the charge space
         for (const sidb_cluster_charge_state& m : c->charge_space)
         {
+            // never empty a charge space, as potential bounds are undefined without any projection; the last multiset is
+            // rejected when it is composed or unfolded, just like the sole element of a charge space skipped above
+            if (removed_ms.size() + 1 == c->charge_space.size())
+            {
+                break;
+            }
+
             const sidb_cluster_projector_state pst{.cluster = c, .multiset_conf = static_cast<uint64_t>(m)};
 
             if (!perform_potential_bound_analysis<potential_bound_analysis_mode::ANALYZE_MULTISET>(pst))
-- 
2.43.0


From d5f9f0fb5dfd4cb609993f7fbdff00bed3ebe8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 04/54] fix: give every thread its own random generator when
 sampling an operational domain

Concurrent computations of operational domains drew their samples from one
unsynchronised function-local static generator.
---
 .../fiction/algorithms/simulation/sidb/operational_domain.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1011e2e..1cabefc 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -1550,7 +1550,7 @@ class operational_domain_impl
      */
     [[nodiscard]] std::vector<step_point> generate_random_step_points(const std::size_t samples) const noexcept
     {
-        static std::mt19937_64 generator{std::random_device{}()};
+        static thread_local std::mt19937_64 generator{std::random_device{}()};
 
         // instantiate distributions
         std::vector<std::uniform_int_distribution<std::size_t>> distributions{};
-- 
2.43.0


From ae5c8c30b08a4b4330eed3b2bf295e514b6a52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 05/54] fix: trace complete contours of operational domains and
 terminate on isolated points

The Moore trace stopped as soon as it came across its starting point, which cut
off everything behind it, began with the wrong neighbor at the left edge of the
parameter range, and never terminated on an isolated operational point. Use the
first clockwise neighbor at the edge and Jacob's stopping criterion.
---
 .../simulation/sidb/operational_domain.hpp    | 44 ++++++++++++++++---
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1cabefc..748f796 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -886,25 +886,50 @@ class operational_domain_impl
             const auto x = current_contour_point.step_values.at(0);
             const auto y = current_contour_point.step_values.at(1);
 
-            auto backtrack_point = x == 0 ? current_contour_point : step_point{{x - 1, y}};
-
             auto current_neighborhood = moore_neighborhood_2d(current_contour_point);
 
-            auto next_point = contour_starting_point;
+            // the trace enters the contour from the left. If the left neighbor is outside of the parameter range, the
+            // walk begins with the neighbor that follows it in clockwise order: the upper one, if it is inside
+            auto backtrack_point = x == 0 ? current_contour_point : step_point{{x - 1, y}};
+            auto next_point      = contour_starting_point;
 
             if (!current_neighborhood.empty())
             {
-                next_point = current_contour_point == backtrack_point ?
-                                 current_neighborhood.front() :
-                                 next_clockwise_point(current_neighborhood, backtrack_point);
+                if (x != 0)
+                {
+                    next_point = next_clockwise_point(current_neighborhood, backtrack_point);
+                }
+                else
+                {
+                    const auto upper = std::ranges::find(current_neighborhood, step_point{{x, y + 1}});
+                    next_point       = upper != current_neighborhood.cend() ? *upper : current_neighborhood.front();
+                }
             }
 
-            while (next_point != contour_starting_point)
+            // the first step away from the starting point. The contour is closed when this step is about to be repeated
+            // (Jacob's stopping criterion); merely coming across the starting point again is not sufficient since it can
+            // connect several parts of the operational area. No such step exists if the starting point is isolated
+            std::optional<step_point> first_step{};
+            std::size_t               rejected_neighbors{0};
+
+            while (next_point != current_contour_point)
             {
                 const auto operational_status = is_step_point_operational(next_point);
 
                 if (operational_status == operational_status::OPERATIONAL)
                 {
+                    if (current_contour_point == contour_starting_point)
+                    {
+                        if (!first_step.has_value())
+                        {
+                            first_step = next_point;
+                        }
+                        else if (first_step.value() == next_point)
+                        {
+                            break;
+                        }
+                    }
+
                     backtrack_point       = current_contour_point;
                     current_contour_point = next_point;
 
@@ -913,6 +938,11 @@ class operational_domain_impl
                 else
                 {
                     backtrack_point = next_point;
+
+                    if (!first_step.has_value() && ++rejected_neighbors == current_neighborhood.size())
+                    {
+                        break;
+                    }
                 }
 
                 current_neighborhood = moore_neighborhood_2d(current_contour_point);
-- 
2.43.0


From 77d200d993955d6435e785cc4c6d1b37343439f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 06/54] fix: gate designer divides by zero if the number of
 hardware threads is unknown

---
 .../fiction/algorithms/physical_design/design_sidb_gates.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
index 002921c..ef86c87 100644
--- a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
+++ b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
@@ -550,9 +550,10 @@ class design_sidb_gates_impl
      */
     std::atomic<std::size_t> number_of_discarded_layouts_at_third_pruning{0};
     /**
-     * Number of threads to be used for the design process.
+     * Number of threads to be used for the design process. Falls back to `1` where the number of hardware threads is not
+     * detectable.
      */
-    std::size_t number_of_threads{std::thread::hardware_concurrency()};
+    std::size_t number_of_threads{std::max(std::size_t{std::thread::hardware_concurrency()}, std::size_t{1})};
     /**
      * This function processes each layout to determine if it represents a valid gate implementation or if it can be
      * pruned by using three distinct physically-informed pruning steps. It leverages multi-threading to accelerate the
-- 
2.43.0


From 558aaf487cbf498a55f2952f666342e7c18d2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 07/54] fix: give every thread its own generator of random
 coordinates

Random gate design draws coordinates from several threads at once.
---
 include/fiction/utils/layout_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..8456cb7 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -586,7 +586,7 @@ template <typename LytDest, typename LytSrc>
 template <typename CoordinateType>
 CoordinateType random_coordinate(CoordinateType coordinate1, CoordinateType coordinate2) noexcept
 {
-    static std::mt19937_64 generator(std::random_device{}());
+    static thread_local std::mt19937_64 generator(std::random_device{}());
 
     if (coordinate1 > coordinate2)
     {
-- 
2.43.0


From f5f27ce36fc9a44d2f94c593174e90504a5c1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 08/54] fix: QuickCell workers wrote the shared analysis
 strategy without synchronization

Choose it once before the workers are launched.
---
 .../algorithms/physical_design/design_sidb_gates.hpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
index ef86c87..de03497 100644
--- a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
+++ b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
@@ -435,6 +435,10 @@ class design_sidb_gates_impl
 
         std::atomic<bool> gate_design_found = false;
 
+        // pruning was already conducted above. Hence, SIMULATION_ONLY is chosen.
+        params.operational_params.strategy_to_analyze_operational_status =
+            is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
+
         const auto check_operational_status =
             [this, &gate_layouts, &mutex_to_protect_gate_designs, &gate_design_found](const auto& candidate) noexcept
         {
@@ -445,10 +449,6 @@ class design_sidb_gates_impl
                 return;
             }
 
-            // pruning was already conducted above. Hence, SIMULATION_ONLY is chosen.
-            params.operational_params.strategy_to_analyze_operational_status =
-                is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
-
             if (const auto [status, sim_calls] = is_operational(candidate, truth_table, params.operational_params,
                                                                 input_bdl_wires, output_bdl_wires);
                 status == operational_status::OPERATIONAL)
-- 
2.43.0


From 8020d38bb0e05670b232cf0b394bd2bbd7935bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 09/54] fix: random gate design removed defects from the layout
 it was iterating over

Iterate over the skeleton's defects instead.
---
 .../fiction/algorithms/physical_design/design_sidb_gates.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
index de03497..e3b0053 100644
--- a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
+++ b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
@@ -334,7 +334,9 @@ class design_sidb_gates_impl
 
                         if constexpr (has_get_sidb_defect_v<Lyt>)
                         {
-                            result_lyt.value().foreach_sidb_defect(
+                            // iterate over the skeleton's defects, which are the same, as removing a defect
+                            // invalidates the iteration over the layout it is removed from
+                            skeleton_layout.foreach_sidb_defect(
                                 [&result_lyt](const auto& cd)
                                 {
                                     if (is_neutrally_charged_defect(cd.second))
-- 
2.43.0


From 3e2ff60fa1e9c1d441aca6a29dafa1adc926fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 10/54] fix: give every thread its own generator in the defect
 influence computation

The generator was shared by all instances, so that concurrent callers raced on it.
---
 include/fiction/algorithms/simulation/sidb/defect_influence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 9e9d642..7b237e7 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -462,7 +462,7 @@ class defect_influence_impl
     /**
      * Random number generator.
      */
-    inline static std::mt19937_64 generator{std::random_device{}()};
+    inline static thread_local std::mt19937_64 generator{std::random_device{}()};
     /**
      * Uniform distribution for the y-coordinate of the defect.
      */
-- 
2.43.0


From 9efac1320ea91d6c13483e2f9f3eb6b814ae20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 11/54] fix: log the statistics of a defect influence trace
 that finds no starting point

---
 include/fiction/algorithms/simulation/sidb/defect_influence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 7b237e7..4797c01 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -346,6 +346,8 @@ class defect_influence_impl
             // if no operational point was found within the specified number of samples, return
             if (!operational_starting_point.has_value())
             {
+                log_stats();
+
                 return influence_domain;
             }
 
-- 
2.43.0


From 267767d5f4f993d27336a7cedbfb953c30549d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 12/54] fix: defect influence workers added to the total
 runtime without synchronization

The total runtime is already measured by the calling function. The additional
stopwatch in the workers raced on it and counted the same time repeatedly.
---
 include/fiction/algorithms/simulation/sidb/defect_influence.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 4797c01..5587dcc 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -649,8 +649,6 @@ class defect_influence_impl
             params.operational_params.simulation_parameters,
             quickexact_params<cell<Lyt>>::automatic_base_number_detection::OFF};
 
-        mockturtle::stopwatch stop{stats.time_total};
-
         const auto simulation_results = quickexact(lyt_without_defect, qe_params);
 
         const auto ground_states = simulation_results.groundstates();
-- 
2.43.0


From 39e1587e63a5766b5f1c3c3e6aec1bf4bd5e561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 13/54] fix: trace complete contours of the defect influence
 domain

The trace left occupied cells out of the neighborhoods, so that it could lose its
backtrack point (an assertion in debug builds, an endless loop otherwise), skipped
contours at the left edge of the scanned area, and stopped as soon as it examined
its starting point again. Start from the first influential position, treat occupied
cells as the non-influential positions they are reported as, and use Jacob's
stopping criterion.
---
 .../simulation/sidb/defect_influence.hpp      | 93 ++++++++-----------
 1 file changed, 40 insertions(+), 53 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 5587dcc..6de4239 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -372,43 +372,54 @@ class defect_influence_impl
                 continue;
             }
 
-            const auto contour_starting_point = *contour_starting_p;
-
             // the layout hs to be defect-free.
             assert(layout.num_defects() == 0 && "An atomic defect is added");
 
-            auto current_contour_point = contour_starting_point;
-            auto backtrack_point       = current_contour_point.x == nw_cell.x ?
-                                             current_contour_point :
-                                             typename Lyt::cell{current_contour_point.x - 1, current_contour_point.y};
-
-            auto current_neighborhood = moore_neighborhood(current_contour_point);
+            // the trace follows the influential positions and enters the first one of them from the left
+            auto       backtrack_point        = *contour_starting_p;
+            const auto contour_starting_point = typename Lyt::cell{backtrack_point.x + 1, backtrack_point.y};
 
-            // if the backtrack point is not part of the neighborhood, continue with the next starting point
-            if (std::ranges::find(current_neighborhood, backtrack_point) == current_neighborhood.cend())
-            {
-                continue;
-            }
+            auto current_contour_point = contour_starting_point;
+            auto current_neighborhood  = moore_neighborhood(current_contour_point);
+            auto next_point            = next_clockwise_point(current_neighborhood, backtrack_point);
 
-            auto next_point = current_contour_point == backtrack_point ?
-                                  current_neighborhood.front() :
-                                  next_clockwise_point(current_neighborhood, backtrack_point);
+            // the first step away from the starting point. The contour is closed when this step is about to be repeated
+            // (Jacob's stopping criterion); merely coming across the starting point again is not sufficient since it can
+            // connect several parts of the influential area. No such step exists if the starting point is isolated
+            std::optional<typename Lyt::cell> first_step{};
+            std::size_t                       rejected_neighbors{0};
 
-            while (next_point != contour_starting_point)
+            while (true)
             {
                 const auto defect_influence_status = is_defect_influential(spec, next_point);
 
                 assert(layout.num_defects() == 0 && "more than one defect");
 
-                if (defect_influence_status == defect_influence_status::INFLUENTIAL ||
-                    !layout.is_empty_cell(next_point))
+                if (defect_influence_status == defect_influence_status::INFLUENTIAL)
                 {
+                    if (current_contour_point == contour_starting_point)
+                    {
+                        if (!first_step.has_value())
+                        {
+                            first_step = next_point;
+                        }
+                        else if (first_step.value() == next_point)
+                        {
+                            break;
+                        }
+                    }
+
                     backtrack_point       = current_contour_point;
                     current_contour_point = next_point;
                 }
                 else
                 {
                     backtrack_point = next_point;
+
+                    if (!first_step.has_value() && ++rejected_neighbors == current_neighborhood.size())
+                    {
+                        break;
+                    }
                 }
 
                 current_neighborhood = moore_neighborhood(current_contour_point);
@@ -769,8 +780,8 @@ class defect_influence_impl
      * in horizontal, vertical, and diagonal directions.
      *
      * @param c The cell for which the Moore neighborhood is computed.
-     * @return A vector containing the cells in the Moore neighborhood that are empty.
-     *         If a cell is outside the layout boundaries or occupied, it is not included in the result.
+     * @return A vector containing the cells in the Moore neighborhood. If a cell is outside the layout boundaries, it is
+     * not included in the result.
      */
     [[nodiscard]] std::vector<typename Lyt::cell> moore_neighborhood(const typename Lyt::cell& c) const noexcept
     {
@@ -789,66 +800,42 @@ class defect_influence_impl
         // right
         if (moore.x != incr_x)
         {
-            if (layout.is_empty_cell({incr_x, moore.y}))
-            {
-                neighbors.emplace_back(incr_x, moore.y);
-            }
+            neighbors.emplace_back(incr_x, moore.y);
         }
         // lower-right
         if (moore.x != incr_x && moore.y != decr_y)
         {
-            if (layout.is_empty_cell({incr_x, decr_y}))
-            {
-                neighbors.emplace_back(incr_x, decr_y);
-            }
+            neighbors.emplace_back(incr_x, decr_y);
         }
         // down
         if (moore.y != decr_y)
         {
-            if (layout.is_empty_cell({moore.x, decr_y}))
-            {
-                neighbors.emplace_back(moore.x, decr_y);
-            }
+            neighbors.emplace_back(moore.x, decr_y);
         }
         // lower-left
         if (moore.x != decr_x && moore.y != decr_y)
         {
-            if (layout.is_empty_cell({decr_x, decr_y}))
-            {
-                neighbors.emplace_back(decr_x, decr_y);
-            }
+            neighbors.emplace_back(decr_x, decr_y);
         }
         // left
         if (moore.x != decr_x)
         {
-            if (layout.is_empty_cell({decr_x, moore.y}))
-            {
-                neighbors.emplace_back(decr_x, moore.y);
-            }
+            neighbors.emplace_back(decr_x, moore.y);
         }
         // upper-left
         if (moore.x != decr_x && moore.y != incr_y)
         {
-            if (layout.is_empty_cell({decr_x, incr_y}))
-            {
-                neighbors.emplace_back(decr_x, incr_y);
-            }
+            neighbors.emplace_back(decr_x, incr_y);
         }
         // up
         if (moore.y != incr_y)
         {
-            if (layout.is_empty_cell({moore.x, incr_y}))
-            {
-                neighbors.emplace_back(moore.x, incr_y);
-            }
+            neighbors.emplace_back(moore.x, incr_y);
         }
         // upper-right
         if (moore.x != incr_x && moore.y != incr_y)
         {
-            if (layout.is_empty_cell({incr_x, incr_y}))
-            {
-                neighbors.emplace_back(incr_x, incr_y);
-            }
+            neighbors.emplace_back(incr_x, incr_y);
         }
 
         return neighbors;
-- 
2.43.0


From 53f9d47932ad6f01976dcbff5605b554849d8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 14/54] fix: keep atomic defects in displaced SiDB layouts

Displaced layouts were built from the cells alone, so that their operational status
was determined without the defects of the surface.
---
 .../simulation/sidb/displacement_robustness_domain.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
index d03f184..9f66e76 100644
--- a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
@@ -541,6 +541,13 @@ class displacement_robustness_domain_impl
 
             Lyt displaced_lyt{};
 
+            // the atomic defects of the surface stay where they are
+            if constexpr (is_sidb_defect_surface_v<Lyt>)
+            {
+                layout.foreach_sidb_defect([&displaced_lyt](const auto& cd)
+                                           { displaced_lyt.assign_sidb_defect(cd.first, cd.second); });
+            }
+
             for (std::size_t i = 0; i < cell_displacements.size(); ++i)
             {
                 displaced_lyt.assign_cell_type(cell_displacements[i],
-- 
2.43.0


From 2f2b02b363bfdc6801522474eb1e5cd56eef5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 15/54] fix: displace SiDBs in the x-direction on their
 original dimers for all coordinate types

With cube and offset coordinates, restricting displacements to the original dimer
overwrote the x-range with the original position, so that the displacements in the
x-direction that SiQAD coordinates consider were left out.
---
 .../simulation/sidb/displacement_robustness_domain.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
index 9f66e76..5513d33 100644
--- a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
@@ -463,8 +463,9 @@ class displacement_robustness_domain_impl
                             new_pos_se_siqad.z = 0;
                             new_pos_nw_siqad.z = 1;
 
-                            new_pos_nw = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_nw_siqad);
-                            new_pos_se = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_se_siqad);
+                            // the dimer restricts the y-coordinate only
+                            new_pos_nw.y = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_nw_siqad).y;
+                            new_pos_se.y = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_se_siqad).y;
                         }
 
                         else
-- 
2.43.0


From fd158c67657578da2e5186e5d1707532566a0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 16/54] fix: do not count discarded displacements as analyzed
 displaced layouts

Displacements that move two SiDBs onto the same position were counted towards the
number of layouts to analyze in random mode, so that it could happen that no layout
was analyzed at all and the probability of fabricating a working gate was NaN.
---
 .../simulation/sidb/displacement_robustness_domain.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
index 5513d33..415ea08 100644
--- a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
@@ -558,8 +558,8 @@ class displacement_robustness_domain_impl
             if (displaced_lyt.num_cells() == layout.num_cells())
             {
                 layouts.push_back(displaced_lyt);
+                number_of_layouts_with_displaced_sidbs++;
             }
-            number_of_layouts_with_displaced_sidbs++;
         }
 
         return layouts;
-- 
2.43.0


From 3ad07427e076ef8c35224ca512b1870b9a3c98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 17/54] fix: keep the SiDBs of the skeleton in random SiDB
 layouts

A random coordinate that hit an SiDB of the skeleton overwrote its type, and removed
it if positive charges are forbidden but can occur in the skeleton.
---
 .../simulation/sidb/random_sidb_layout_generator.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
index 3c918ca..b68fdb1 100644
--- a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
+++ b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
@@ -141,9 +141,9 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
             random_cell_is_identical_with_defect = (lyt.get_sidb_defect(random_coord).type != sidb_defect_type::NONE);
         }
 
-        // if the constraints that no positive SiDBs occur and the cell is not yet occupied by a defect are satisfied,
-        // the SiDB is added to the layout
-        if (!random_cell_is_identical_with_defect && !next_to_neutral_defect)
+        // if the constraints that no positive SiDBs occur and the cell is not yet occupied by an SiDB or a defect are
+        // satisfied, the SiDB is added to the layout
+        if (lyt.is_empty_cell(random_coord) && !random_cell_is_identical_with_defect && !next_to_neutral_defect)
         {
             if (skeleton.has_value())
             {
-- 
2.43.0


From f6cdd8f246e47cf65686beff13e6c10084978589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 18/54] fix: random SiDB layouts in which positive charges may
 occur recursed without bound

The generator called itself until a layout happened to allow positive charges, which
never returned (or exhausted the stack) if none does. Place the SiDBs anew within the
maximum number of attempts instead and give up afterwards.
---
 .../simulation/sidb/random_sidb_layout_generator.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
index b68fdb1..64ded92 100644
--- a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
+++ b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
@@ -162,12 +162,20 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
             }
         }
         attempt_counter += 1;
+
+        // if positive charges have to be possible but are not, all SiDBs are placed anew with the remaining attempts
+        if (params.positive_sidbs == generate_random_sidb_layout_params<coordinate<Lyt>>::positive_charges::MAY_OCCUR &&
+            lyt.num_cells() == number_of_sidbs_of_final_layout && attempt_counter < params.maximal_attempts &&
+            !can_positive_charges_occur(lyt, params.simulation_parameters))
+        {
+            lyt = skeleton.has_value() ? skeleton.value().clone() : Lyt{};
+        }
     }
 
     if (params.positive_sidbs == generate_random_sidb_layout_params<coordinate<Lyt>>::positive_charges::MAY_OCCUR &&
         !can_positive_charges_occur(lyt, params.simulation_parameters))
     {
-        return generate_random_sidb_layout(params, skeleton);
+        return std::nullopt;
     }
 
     if (lyt.num_cells() == number_of_sidbs_of_final_layout)
-- 
2.43.0


From 50396cea546c8b83e00cc9742c5f12a4fe67bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 19/54] fix: seed the random spacing of inputs per
 graph-oriented layout design run

The thread-local generator and distribution kept the seed and the range of the
first run in a thread, so results depended on what was designed before and
never used spacings below the maximum minus one although 0 is documented.
---
 .../graph_oriented_layout_design.hpp          | 44 +++++++------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index ea67f70..08681cb 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -502,6 +502,11 @@ struct search_space_graph
      */
     graph_oriented_layout_design_params::cost_objective cost =
         graph_oriented_layout_design_params::cost_objective::AREA;
+    /**
+     * Random number generator for `tiles_to_skip_between_pis` randomization. Each search space graph has its own one to
+     * be reproducible independently of the threads used.
+     */
+    std::mt19937 rng{};
 };
 /**
  * @brief Custom view class derived from mockturtle::topo_view.
@@ -1111,29 +1116,6 @@ class graph_oriented_layout_design_impl
      * Thread pool for multithreaded execution to avoid thread creation overhead.
      */
     mutable std::vector<std::future<std::optional<Lyt>>> futures_pool{};
-    /**
-     * Get thread-local random number generator for `tiles_to_skip_between_pis` randomization.
-     * Each thread will have its own RNG to avoid mutex contention.
-     *
-     * @return Reference to a thread-local Mersenne Twister random number generator.
-     */
-    [[nodiscard]] std::mt19937& get_thread_local_rng() const
-    {
-        thread_local std::mt19937 rng{seed};
-        return rng;
-    }
-    /**
-     * Get thread-local distribution for generating random `tiles_to_skip_between_pis` values.
-     *
-     * @return Reference to a thread-local uniform integer distribution for generating random skip values.
-     */
-    [[nodiscard]] std::uniform_int_distribution<uint64_t>& get_thread_local_dist() const
-    {
-        // Handle edge case where tiles_to_skip_between_pis is 0
-        const auto min_val = ps.tiles_to_skip_between_pis > 0 ? ps.tiles_to_skip_between_pis - 1 : 0;
-        thread_local std::uniform_int_distribution<uint64_t> dist{min_val, ps.tiles_to_skip_between_pis};
-        return dist;
-    }
     /**
      * Determines the number of search space graphs to generate based on the selected effort mode and cost objective.
      *
@@ -1235,10 +1217,12 @@ class graph_oriented_layout_design_impl
      * @param layout The layout in which to find the possible positions for PIs.
      * @param pi_locs Struct indicating if PIs are allowed at the top or left side of the layout.
      * @param num_expansions The maximum number of positions to be returned (is doubled for PIs).
+     * @param rng Random number generator used to randomize the number of tiles to skip between PIs.
      * @return A vector of tiles representing the possible positions for PIs.
      */
     [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions_pis(ObstrLyt& layout, const pi_locations& pi_locs,
-                                                                      const uint64_t num_expansions) noexcept
+                                                                      const uint64_t num_expansions,
+                                                                      std::mt19937&  rng) noexcept
     {
         uint64_t count_expansions = 0ul;
 
@@ -1250,8 +1234,9 @@ class graph_oriented_layout_design_impl
         {
             if (ps.randomize_tiles_to_skip_between_pis)
             {
-                // generate random skip_tiles for each PI placement using thread-local RNG
-                skip_tiles = get_thread_local_dist()(get_thread_local_rng());
+                // generate random skip_tiles for each PI placement
+                std::uniform_int_distribution<uint64_t> dist{0, ps.tiles_to_skip_between_pis};
+                skip_tiles = dist(rng);
             }
             else
             {
@@ -1559,15 +1544,15 @@ class graph_oriented_layout_design_impl
      * @param ssg The search space graph.
      * @return A vector of tiles representing the possible positions for the current node.
      */
-    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                           layout,
-                                                                  const search_space_graph<ObstrLyt>& ssg,
+    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                       layout,
+                                                                  search_space_graph<ObstrLyt>&   ssg,
                                                                   const placement_info<ObstrLyt>& place_info) noexcept
     {
         const auto fc = fanins(ssg.network, ssg.nodes_to_place[place_info.current_node]);
 
         if (ssg.network.is_pi(ssg.nodes_to_place[place_info.current_node]))
         {
-            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis());
+            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis(), ssg.rng);
         }
         if (ssg.network.is_po(ssg.nodes_to_place[place_info.current_node]))
         {
@@ -2199,6 +2184,7 @@ class graph_oriented_layout_design_impl
         for (auto& graph : ssg_vec)
         {
             graph.pi_locs = pattern.at(idx % pattern.size());
+            graph.rng.seed(seed + static_cast<uint32_t>(idx));
             ++idx;  // move to next pattern element
 
             graph.cost_so_far[graph.current_vertex] = 0;
-- 
2.43.0


From 290daf47bd9832387f6f670e110c0c410f5b0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 20/54] fix: return named layouts from graph-oriented layout
 design with return_first

The single-threaded search returned the layout without the restored names; the
multithreaded one a layout the statistics did not refer to if another thread
had found a better one in the meantime.
---
 .../physical_design/graph_oriented_layout_design.hpp      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index 08681cb..714d809 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -876,7 +876,7 @@ class graph_oriented_layout_design_impl
                         {
                             if (f.wait_for(std::chrono::milliseconds{0}) == std::future_status::ready)
                             {
-                                if (auto r = f.get())
+                                if (f.get())
                                 {
                                     // cancel remaining futures if return_first is enabled
                                     if (ps.return_first)
@@ -889,7 +889,9 @@ class graph_oriented_layout_design_impl
                                             }
                                         }
                                     }
-                                    return *r;  // return immediately when first result is ready
+                                    // the remaining threads might have found a better layout, which the statistics
+                                    // refer to
+                                    return best_lyt;
                                 }
                             }
                             else
@@ -924,7 +926,7 @@ class graph_oriented_layout_design_impl
 
                         if (ps.return_first)
                         {
-                            return *result;
+                            return best_lyt;
                         }
                     }
                 }
-- 
2.43.0


From a16126f1977381efab3ba8fd50760c2cdf064232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 21/54] fix: keep the best layout of all threads in
 graph-oriented layout design

Comparing with the best cost and updating it was not atomic, and threads
overwrote the best layout unconditionally, so that a worse layout than one
already found could be returned.
---
 .../graph_oriented_layout_design.hpp            | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index 714d809..b39f03a 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -853,6 +853,13 @@ class graph_oriented_layout_design_impl
                                        if (auto result = process_ssg(*ssg_ptr); result)
                                        {
                                            const std::scoped_lock lock(update_best_layout_mutex);
+
+                                           // discard the result if another thread has found a better one since
+                                           if (calculate_cost(*result, ps.cost) > best_optimized_solution)
+                                           {
+                                               return std::nullopt;
+                                           }
+
                                            best_lyt = std::move(*result);
                                            restore_names(ssg_ptr->network, best_lyt);
                                            update_stats(best_lyt);
@@ -2075,10 +2082,14 @@ class graph_oriented_layout_design_impl
 
                 desired_cost = calculate_cost(layout, ps.cost);
 
-                if (desired_cost < best_optimized_solution)
-                {
-                    best_optimized_solution = desired_cost;
+                // update the best solution atomically as other threads may do so at the same time
+                auto best_cost = best_optimized_solution.load();
+                while (desired_cost < best_cost &&
+                       !best_optimized_solution.compare_exchange_weak(best_cost, desired_cost))
+                {}
 
+                if (desired_cost < best_cost)
+                {
                     if (ps.verbose)
                     {
                         print_placement_info(layout);
-- 
2.43.0


From b0199628463eb91b763d9557fc64925e1a7b6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 22/54] fix: measure the timeout of graph-oriented layout
 design on a monotonic clock

high_resolution_clock is the system clock here: a step back wrapped the elapsed
time around and ended the search, a step forward as well.
---
 .../physical_design/graph_oriented_layout_design.hpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index b39f03a..5be745c 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -793,7 +793,7 @@ class graph_oriented_layout_design_impl
             pst{st},
             custom_cost_objective{custom},
             timeout{ps.timeout},
-            start{std::chrono::high_resolution_clock::now()},
+            start{std::chrono::steady_clock::now()},
             seed{p.seed.value_or(std::random_device{}())}
     {
         ntk.substitute_po_signals();
@@ -958,7 +958,7 @@ class graph_oriented_layout_design_impl
             // check if timeout is reached or solution found
             timeout_limit_reached = std::ranges::none_of(ssg_vec, [](const auto& ssg) { return ssg.frontier_flag; });
 
-            const auto end = std::chrono::high_resolution_clock::now();
+            const auto end = std::chrono::steady_clock::now();
             const auto duration_ms =
                 static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
 
@@ -1017,7 +1017,7 @@ class graph_oriented_layout_design_impl
     /**
      * Start time.
      */
-    std::chrono::time_point<std::chrono::high_resolution_clock> start;
+    std::chrono::time_point<std::chrono::steady_clock> start;
     /**
      * Number of search space graphs.
      */
@@ -1811,7 +1811,7 @@ class graph_oriented_layout_design_impl
         std::cout << "\n[i] Found improved solution:\n";
 
         // calculate the duration between start and end
-        const auto end      = std::chrono::high_resolution_clock::now();
+        const auto end      = std::chrono::steady_clock::now();
         const auto duration = end - start;
 
         // extract the duration components
-- 
2.43.0


From b8ca67bc9395aa06037d772f2762d6871214e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 23/54] fix: measure the timeouts of layout optimizations on a
 monotonic clock

---
 .../algorithms/physical_design/post_layout_optimization.hpp | 6 +++---
 .../fiction/algorithms/physical_design/wiring_reduction.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..69f5e7c 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -428,7 +428,7 @@ class post_layout_optimization_impl
             plyt{lyt},
             ps{p},
             pst{st},
-            start{std::chrono::high_resolution_clock::now()}
+            start{std::chrono::steady_clock::now()}
     {}
 
     void run()
@@ -598,7 +598,7 @@ class post_layout_optimization_impl
     /**
      * Start time.
      */
-    std::chrono::time_point<std::chrono::high_resolution_clock> start;
+    std::chrono::time_point<std::chrono::steady_clock> start;
     /**
      * Maximum number of relocations to try for each gate.
      */
@@ -854,7 +854,7 @@ class post_layout_optimization_impl
      */
     uint64_t update_timeout() noexcept
     {
-        const auto current_time = std::chrono::high_resolution_clock::now();
+        const auto current_time = std::chrono::steady_clock::now();
         const auto elapsed_ms =
             static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(current_time - start).count());
         timeout_limit_reached = (elapsed_ms >= ps.timeout);
diff --git a/include/fiction/algorithms/physical_design/wiring_reduction.hpp b/include/fiction/algorithms/physical_design/wiring_reduction.hpp
index d354605..d269bd6 100644
--- a/include/fiction/algorithms/physical_design/wiring_reduction.hpp
+++ b/include/fiction/algorithms/physical_design/wiring_reduction.hpp
@@ -1063,7 +1063,7 @@ class wiring_reduction_impl
             plyt{lyt},
             ps{p},
             pst{st},
-            start{std::chrono::high_resolution_clock::now()}
+            start{std::chrono::steady_clock::now()}
     {}
 
     void run()
@@ -1091,7 +1091,7 @@ class wiring_reduction_impl
         const auto update_timeout = [start_time = this->start, &params = this->ps,
                                      &timeout_limit_is_reached = this->timeout_limit_reached]() noexcept -> void
         {
-            const auto current_time = std::chrono::high_resolution_clock::now();
+            const auto current_time = std::chrono::steady_clock::now();
             const auto elapsed_ms   = static_cast<uint64_t>(
                 std::chrono::duration_cast<std::chrono::milliseconds>(current_time - start_time).count());
             timeout_limit_is_reached = (elapsed_ms >= params.timeout);
@@ -1206,7 +1206,7 @@ class wiring_reduction_impl
     /**
      * Start time.
      */
-    std::chrono::time_point<std::chrono::high_resolution_clock> start;
+    std::chrono::time_point<std::chrono::steady_clock> start;
 };
 }  // namespace detail
 
-- 
2.43.0


From 5c1ce2f7ee8eaed7d5a4337ea361d61c925851c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 24/54] fix: concurrent post-layout optimizations shared their
 path-finding parameters

---
 .../algorithms/physical_design/post_layout_optimization.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 69f5e7c..c123303 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -832,7 +832,7 @@ class post_layout_optimization_impl
     {
         using dist = twoddwave_distance_functor<ObstrLyt, uint64_t>;
         using cost = unit_cost_functor<ObstrLyt, uint8_t>;
-        static a_star_params astar_params{};
+        a_star_params astar_params{};
         astar_params.crossings = !ps.planar_optimization;
 
         const auto path =
-- 
2.43.0


From 97dcb0be737384ce1d906dc8079642fed9500a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 25/54] fix: keep inverters straight that drive outputs over
 wires in graph-oriented layout design

The relocation of outputs was skipped only if an output is placed right behind
an inverter; otherwise it bent the inverter's outgoing wire.
---
 .../physical_design/graph_oriented_layout_design.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index 5be745c..e571bb0 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -2061,8 +2061,16 @@ class graph_oriented_layout_design_impl
                     layout.foreach_po(
                         [&layout, &apply_plo](const auto& gate)
                         {
-                            if (const auto coord = layout.get_tile(layout.get_node(gate));
-                                layout.is_inv(layout.get_node(layout.incoming_data_flow(coord).front())))
+                            // follow the wire back to the gate that drives the PO
+                            auto driver =
+                                layout.incoming_data_flow(layout.get_tile(layout.get_node(gate))).front();
+                            while (layout.is_wire(layout.get_node(driver)) && !layout.is_pi(layout.get_node(driver)) &&
+                                   layout.fanout_size(layout.get_node(driver)) == 1)
+                            {
+                                driver = layout.incoming_data_flow(driver).front();
+                            }
+
+                            if (layout.is_inv(layout.get_node(driver)))
                             {
                                 apply_plo = false;
                             }
-- 
2.43.0


From dce74c3059e5189e4a0e5fabdaea0e06e65a37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 26/54] fix: do not expand complete layouts in graph-oriented
 layout design

A complete layout that is worse than the best one was expanded by accessing the
node behind the last one if another thread changed the best cost between the
two comparisons.
---
 .../physical_design/graph_oriented_layout_design.hpp        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index e571bb0..98e21cf 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -2109,6 +2109,12 @@ class graph_oriented_layout_design_impl
                 return {{}, std::nullopt};
             }
 
+            // a complete layout cannot be expanded any further, even if another thread has changed the best solution
+            if (found_solution)
+            {
+                return {{}, std::nullopt};
+            }
+
             improve_solution = improve_custom_solution;
             best_solution    = best_custom_solution;
 
-- 
2.43.0


From 7c72e982657f4a00cb0af1f8d8a856c1fb69d8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 27/54] fix: do not overwrite outputs when moving misplaced
 ones to the border

---
 .../algorithms/physical_design/post_layout_optimization.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index c123303..0d3fc3e 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -253,7 +253,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last row and move them one row down
     for (uint64_t x = 0; x < lyt.x(); ++x)
     {
-        if (lyt.is_po_tile({x, lyt.y() - 1, 0}))
+        if (lyt.is_po_tile({x, lyt.y() - 1, 0}) && lyt.is_empty_tile({x, lyt.y(), 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
@@ -276,7 +276,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last column and move them one column to the right
     for (uint64_t y = 0; y < lyt.y(); ++y)
     {
-        if (lyt.is_po_tile({lyt.x() - 1, y, 0}))
+        if (lyt.is_po_tile({lyt.x() - 1, y, 0}) && lyt.is_empty_tile({lyt.x(), y, 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
-- 
2.43.0


From 84c431a1e723f51337f4544202870b6dd8c46a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 28/54] fix: keep gates whose two connections lead to the same
 tile in post-layout optimization

---
 .../algorithms/physical_design/post_layout_optimization.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 0d3fc3e..24a11a8 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -1099,6 +1099,12 @@ class post_layout_optimization_impl
 
         auto new_pos = tile<ObstrLyt>{};
 
+        // if both connections lead to the same tile, relocation could merge them into a single one
+        if ((fanins.size() == 2 && fanins[0] == fanins[1]) || (fanouts.size() == 2 && fanouts[0] == fanouts[1]))
+        {
+            return false;
+        }
+
         // if gate is directly connected to one of its fanins, no improvement is possible
         for (const auto& fanin : fanins)
         {
-- 
2.43.0


From 852c6a2ed6200ce0c375e2ec4de78db56deed852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 29/54] fix: preserve the operand order of gates in orthogonal
 and post-layout optimization

---
 .../algorithms/physical_design/orthogonal.hpp |  23 +++-
 .../post_layout_optimization.hpp              | 110 ++++++++++++------
 2 files changed, 95 insertions(+), 38 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..090ca4c 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -330,15 +330,25 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
                                           tile<Lyt> pre1_t, tile<Lyt> pre2_t,
-                                          const std::optional<bool>& c = std::nullopt)
+                                          const std::optional<bool>& c = std::nullopt, bool swapped = false)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    auto a = wire_south(lyt, pre1_t, t);
+    auto b = wire_east(lyt, pre2_t, t);
+
+    // restore the fan-in order of n because its function is not necessarily symmetric
+    if (swapped)
+    {
+        std::swap(a, b);
+    }
+
+    return place(lyt, t, ntk, n, a, b, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -564,6 +574,9 @@ class orthogonal_impl
 
                         tile<Lyt> t{};
 
+                        // whether pre1_t and pre2_t do not match the fan-in order of n
+                        bool swapped = false;
+
                         // n is colored east
                         if (const auto clr = ctn.color_ntk.color(n); clr == ctn.color_east)
                         {
@@ -571,6 +584,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +602,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +621,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             t = latest_pos;
@@ -618,7 +634,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin,
+                                                        swapped);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 24a11a8..49c7770 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -27,6 +27,7 @@
 #include <cmath>
 #include <cstdint>
 #include <iostream>
+#include <iterator>
 #include <limits>
 #include <optional>
 #include <ostream>
@@ -181,6 +182,11 @@ struct fanin_fanout_data
      * the second fan-out within the layout.
      */
     layout_coordinate_path<Lyt> route_gate_to_fanout_2;
+
+    /**
+     * These flags indicate for each fan-out connection whether the gate is the first incoming signal of the fan-out.
+     */
+    std::vector<bool> first_in_fanouts;
 };
 /**
  * Utility function that moves outputs from the last row to the previous row, and from the last column to the previous
@@ -619,6 +625,53 @@ class post_layout_optimization_impl
      * Wiring reduction stats.
      */
     fiction::wiring_reduction_stats wiring_reduction_stats{};
+    /**
+     * Utility function that checks whether a tile is the first incoming one of a gate. The order of incoming tiles has
+     * to be preserved because the functions of gates are not necessarily symmetric.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param incoming_tile Incoming tile of `gate_tile`.
+     * @param gate_tile Tile of the gate.
+     * @return `true` iff `incoming_tile` is the first incoming tile of `gate_tile`.
+     */
+    [[nodiscard]] bool is_first_incoming_tile(const ObstrLyt& lyt, const tile<ObstrLyt>& incoming_tile,
+                                              const tile<ObstrLyt>& gate_tile) const noexcept
+    {
+        const auto in_flow = lyt.incoming_data_flow(gate_tile);
+
+        return !in_flow.empty() && in_flow.front() == incoming_tile;
+    }
+    /**
+     * Utility function that updates the children of the fanouts of a rerouted gate. Since routing appends children,
+     * their original order is restored here.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param fanouts Tiles of the fanouts.
+     * @param first_in_fanouts Flags that indicate whether the gate is the first incoming signal of the fanouts.
+     */
+    void update_children_of_fanouts(ObstrLyt& lyt, const std::vector<tile<Lyt>>& fanouts,
+                                    const std::vector<bool>& first_in_fanouts) noexcept
+    {
+        for (std::size_t i = 0; i < fanouts.size(); ++i)
+        {
+            std::vector<mockturtle::signal<ObstrLyt>> signals{};
+            signals.reserve(lyt.fanin_size(lyt.get_node(fanouts[i])));
+
+            lyt.foreach_fanin(lyt.get_node(fanouts[i]),
+                              [&lyt, &signals](const auto& f)
+                              {
+                                  auto fanin = static_cast<tile<ObstrLyt>>(f);
+                                  signals.push_back(lyt.make_signal(lyt.get_node(fanin)));
+                              });
+
+            if (first_in_fanouts[i] && !signals.empty())
+            {
+                std::ranges::rotate(signals, std::prev(signals.end()));
+            }
+
+            lyt.move_node(lyt.get_node(fanouts[i]), fanouts[i], signals);
+        }
+    }
     /**
      * Utility function to move wires that cross over empty tiles down one layer. This can happen if the wiring of a
      * gate is deleted.
@@ -640,6 +693,9 @@ class post_layout_optimization_impl
                 const auto incoming_tile = lyt.incoming_data_flow(above).front();
                 const auto outgoing_tile = lyt.outgoing_data_flow(above).front();
 
+                // remember whether the wire is the first incoming signal of the outgoing tile
+                const auto is_first_signal = is_first_incoming_tile(lyt, above, outgoing_tile);
+
                 // move wire from z=1 to z=0
                 lyt.move_node(lyt.get_node(above), ground, {lyt.make_signal(lyt.get_node(incoming_tile))});
 
@@ -651,8 +707,13 @@ class post_layout_optimization_impl
                     if (std::ranges::find(deleted_coords, front) == deleted_coords.cend() ||
                         std::ranges::find(moved_tiles, front) != moved_tiles.cend())
                     {
+                        const auto ground_signal = lyt.make_signal(lyt.get_node(ground));
+                        const auto front_signal  = lyt.make_signal(lyt.get_node(front));
+
                         lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile,
-                                      {lyt.make_signal(lyt.get_node(ground)), lyt.make_signal(lyt.get_node(front))});
+                                      is_first_signal ?
+                                          std::vector<mockturtle::signal<ObstrLyt>>{ground_signal, front_signal} :
+                                          std::vector<mockturtle::signal<ObstrLyt>>{front_signal, ground_signal});
                     }
                 }
                 // otherwise, the wire is the only incoming signal
@@ -810,10 +871,12 @@ class post_layout_optimization_impl
         if (!fanout1.is_dead())
         {
             ffd.fanouts.push_back(fanout1);
+            ffd.first_in_fanouts.push_back(is_first_incoming_tile(lyt, ffd.route_gate_to_fanout_1.end()[-2], fanout1));
         }
         if (!fanout2.is_dead())
         {
             ffd.fanouts.push_back(fanout2);
+            ffd.first_in_fanouts.push_back(is_first_incoming_tile(lyt, ffd.route_gate_to_fanout_2.end()[-2], fanout2));
         }
 
         return ffd;
@@ -870,6 +933,7 @@ class post_layout_optimization_impl
      * upon successful relocation.
      * @param fanins               Vector containing the tile positions of all fan-in connections to the gate.
      * @param fanouts              Vector containing the tile positions of all fan-out connections from the gate.
+     * @param first_in_fanouts     Flags that indicate whether the gate is the first incoming signal of the fanouts.
      * @param moved_gate           Reference to a boolean flag that will be set to `true` if the gate is successfully
      * moved.
      * @param old_pos              The original tile position of the gate before the relocation attempt.
@@ -879,8 +943,8 @@ class post_layout_optimization_impl
      */
     bool check_new_position(ObstrLyt& lyt, const tile<ObstrLyt>& new_pos, uint64_t& num_gate_relocations,
                             tile<ObstrLyt>& current_pos, const std::vector<tile<Lyt>>& fanins,
-                            const std::vector<tile<Lyt>>& fanouts, bool& moved_gate,
-                            const tile<ObstrLyt>& old_pos) noexcept
+                            const std::vector<tile<Lyt>>& fanouts, const std::vector<bool>& first_in_fanouts,
+                            bool& moved_gate, const tile<ObstrLyt>& old_pos) noexcept
     {
         if (lyt.is_empty_tile(new_pos) && lyt.is_empty_tile({new_pos.x, new_pos.y, 1}))
         {
@@ -952,20 +1016,7 @@ class post_layout_optimization_impl
                 }
 
                 // update children of fanouts
-                for (const auto& fanout : fanouts)
-                {
-                    std::vector<mockturtle::signal<ObstrLyt>> signals{};
-                    signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-                    lyt.foreach_fanin(lyt.get_node(fanout),
-                                      [&lyt, &signals](const auto& i)
-                                      {
-                                          auto fout = static_cast<tile<ObstrLyt>>(i);
-                                          signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                                      });
-
-                    lyt.move_node(lyt.get_node(fanout), fanout, signals);
-                }
+                update_children_of_fanouts(lyt, fanouts, first_in_fanouts);
 
                 if (new_pos == old_pos)
                 {
@@ -1004,13 +1055,15 @@ class post_layout_optimization_impl
      * @param current_pos Current position of the gate after relocation attempt.
      * @param old_pos Original position of the gate before relocation attempt.
      * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param first_in_fanouts Flags that indicate whether the gate is the first incoming signal of the fanouts.
      */
     void restore_original_wiring(ObstrLyt& lyt, const layout_coordinate_path<ObstrLyt> old_path_from_fanin_1_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_fanin_2_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_1,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_2,
                                  const tile<ObstrLyt>& current_pos, const tile<ObstrLyt>& old_pos,
-                                 const std::vector<tile<Lyt>> fanouts) noexcept
+                                 const std::vector<tile<Lyt>> fanouts,
+                                 const std::vector<bool>&     first_in_fanouts) noexcept
     {
         lyt.move_node(lyt.get_node(current_pos), old_pos, {});
 
@@ -1047,20 +1100,7 @@ class post_layout_optimization_impl
         lyt.move_node(lyt.get_node(old_pos), old_pos, signals);
 
         // update children of fanouts
-        for (const auto& fanout : fanouts)
-        {
-            std::vector<mockturtle::signal<ObstrLyt>> fout_signals{};
-            fout_signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-            lyt.foreach_fanin(lyt.get_node(fanout),
-                              [&lyt, &fout_signals](const auto& i)
-                              {
-                                  auto fout = static_cast<tile<ObstrLyt>>(i);
-                                  fout_signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                              });
-
-            lyt.move_node(lyt.get_node(fanout), fanout, fout_signals);
-        }
+        update_children_of_fanouts(lyt, fanouts, first_in_fanouts);
     }
     /**
      * Utility function that moves gates to new coordinates and checks if routing is possible.
@@ -1080,7 +1120,7 @@ class post_layout_optimization_impl
     bool improve_gate_location(ObstrLyt& lyt, const tile<ObstrLyt>& old_pos) noexcept
     {
         const auto& [fanins, fanouts, to_clear, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
-                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2] =
+                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, first_in_fanouts] =
             get_fanin_and_fanouts(lyt, old_pos);
 
         uint64_t min_x = 0;
@@ -1181,7 +1221,7 @@ class post_layout_optimization_impl
                 {
                     new_pos = tile<ObstrLyt>{x, y};
                     if (!check_new_position(lyt, new_pos, num_gate_relocations, current_pos, fanins, fanouts,
-                                            moved_gate, old_pos))
+                                            first_in_fanouts, moved_gate, old_pos))
                     {
                         return false;
                     }
@@ -1199,7 +1239,7 @@ class post_layout_optimization_impl
         {
             restore_original_wiring(lyt, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
                                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, current_pos,
-                                    old_pos, fanouts);
+                                    old_pos, fanouts, first_in_fanouts);
             return false;
         }
 
-- 
2.43.0


From d0e2aee61b3908c3512cdf71e3b4cac750855768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 30/54] fix: report files that could not be written completely

The file name overloads of the writers closed the file without looking at the
stream state, so a full disk or an I/O error left a truncated file behind and
the call returned as if everything had been written.
---
 include/fiction/io/dot_drawers.hpp                |  5 +++++
 .../fiction/io/write_defect_influence_domain.hpp  |  5 +++++
 include/fiction/io/write_fgl_layout.hpp           |  5 +++++
 include/fiction/io/write_fqca_layout.hpp          |  5 +++++
 .../io/write_location_and_ground_state.hpp        |  5 +++++
 include/fiction/io/write_operational_domain.hpp   |  5 +++++
 include/fiction/io/write_qca_layout.hpp           |  5 +++++
 include/fiction/io/write_qcc_layout.hpp           |  5 +++++
 include/fiction/io/write_qll_layout.hpp           |  5 +++++
 include/fiction/io/write_sqd_layout.hpp           |  5 +++++
 include/fiction/io/write_sqd_sim_result.hpp       |  5 +++++
 include/fiction/io/write_svg_layout.hpp           | 15 +++++++++++++++
 12 files changed, 70 insertions(+)

diff --git a/include/fiction/io/dot_drawers.hpp b/include/fiction/io/dot_drawers.hpp
index 7c12d22..d4988f7 100644
--- a/include/fiction/io/dot_drawers.hpp
+++ b/include/fiction/io/dot_drawers.hpp
@@ -1143,6 +1143,11 @@ void write_dot_layout(const Lyt& lyt, const std::string_view& filename, const Dr
 
     write_dot_layout(lyt, os, drawer);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_defect_influence_domain.hpp b/include/fiction/io/write_defect_influence_domain.hpp
index b41353d..e59235a 100644
--- a/include/fiction/io/write_defect_influence_domain.hpp
+++ b/include/fiction/io/write_defect_influence_domain.hpp
@@ -87,6 +87,11 @@ void write_defect_influence_domain(const defect_influence_domain<Lyt>& defect_in
 
     write_defect_influence_domain<Lyt>(defect_infdom, os, params);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 4f123ba..45c8f38 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -367,6 +367,11 @@ void write_fgl_layout(const Lyt& lyt, const std::string_view& filename)
 
     write_fgl_layout(lyt, os);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_fqca_layout.hpp b/include/fiction/io/write_fqca_layout.hpp
index 79d9f67..1d27aac 100644
--- a/include/fiction/io/write_fqca_layout.hpp
+++ b/include/fiction/io/write_fqca_layout.hpp
@@ -331,6 +331,11 @@ void write_fqca_layout(const Lyt& lyt, const std::string_view& filename, write_f
 
     write_fqca_layout(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_location_and_ground_state.hpp b/include/fiction/io/write_location_and_ground_state.hpp
index 328a9e8..d377aef 100644
--- a/include/fiction/io/write_location_and_ground_state.hpp
+++ b/include/fiction/io/write_location_and_ground_state.hpp
@@ -141,6 +141,11 @@ void write_location_and_ground_state(const sidb_simulation_result<Lyt>& sim_resu
 
     write_location_and_ground_state(sim_result, os);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_operational_domain.hpp b/include/fiction/io/write_operational_domain.hpp
index b9a04ae..c4f410a 100644
--- a/include/fiction/io/write_operational_domain.hpp
+++ b/include/fiction/io/write_operational_domain.hpp
@@ -269,6 +269,11 @@ void write_operational_domain(const OpDomain& opdom, const std::string_view& fil
 
     write_operational_domain(opdom, os, params);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_qca_layout.hpp b/include/fiction/io/write_qca_layout.hpp
index 1da9ddf..1e33708 100644
--- a/include/fiction/io/write_qca_layout.hpp
+++ b/include/fiction/io/write_qca_layout.hpp
@@ -572,6 +572,11 @@ void write_qca_layout(const Lyt& lyt, const std::string_view& filename, write_qc
 
     write_qca_layout(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_qcc_layout.hpp b/include/fiction/io/write_qcc_layout.hpp
index a4e813a..0990347 100644
--- a/include/fiction/io/write_qcc_layout.hpp
+++ b/include/fiction/io/write_qcc_layout.hpp
@@ -389,6 +389,11 @@ void write_qcc_layout(const Lyt& lyt, const std::string_view& filename, write_qc
 
     write_qcc_layout(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 85bdd64..4caeafc 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -470,6 +470,11 @@ void write_qll_layout(const Lyt& lyt, const std::string_view& filename)
 
     write_qll_layout(lyt, os);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_sqd_layout.hpp b/include/fiction/io/write_sqd_layout.hpp
index 846116f..80350d0 100644
--- a/include/fiction/io/write_sqd_layout.hpp
+++ b/include/fiction/io/write_sqd_layout.hpp
@@ -448,6 +448,11 @@ void write_sqd_layout(const Lyt& lyt, const std::string_view& filename)
 
     write_sqd_layout(lyt, os);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_sqd_sim_result.hpp b/include/fiction/io/write_sqd_sim_result.hpp
index dac7077..b1a922f 100644
--- a/include/fiction/io/write_sqd_sim_result.hpp
+++ b/include/fiction/io/write_sqd_sim_result.hpp
@@ -324,6 +324,11 @@ void write_sqd_sim_result(const sidb_simulation_result<Lyt>& sim_result, const s
 
     write_sqd_sim_result(sim_result, os);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
diff --git a/include/fiction/io/write_svg_layout.hpp b/include/fiction/io/write_svg_layout.hpp
index f5fd261..1a7b3c8 100644
--- a/include/fiction/io/write_svg_layout.hpp
+++ b/include/fiction/io/write_svg_layout.hpp
@@ -1369,6 +1369,11 @@ void write_qca_layout_svg(const Lyt& lyt, const std::string_view& filename, cons
 
     write_qca_layout_svg(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 /**
@@ -1421,6 +1426,11 @@ void write_mol_qca_layout_svg(const Lyt& lyt, const std::string_view& filename,
 
     write_mol_qca_layout_svg(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 /**
@@ -1471,6 +1481,11 @@ void write_sidb_layout_svg(const Lyt& lyt, const std::string_view& filename,
 
     write_sidb_layout_svg(lyt, os, ps);
     os.close();
+
+    if (!os)
+    {
+        throw std::ofstream::failure("could not write file");
+    }
 }
 
 }  // namespace fiction
-- 
2.43.0


From c6936332cf06ec717dc517296ccd0f696b8cbae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 31/54] fix: let tt_reader cope with empty and missing files

The bound elements.size() - 1 wraps around for an empty file (or one that could
not be opened), so next() read beyond the end of the vector.
---
 include/fiction/io/tt_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 6361a5f..83e3c74 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -58,7 +58,7 @@ class tt_reader
      */
     std::optional<TT> next()
     {
-        if (pos >= elements.size() - 1)
+        if (pos + 1 >= elements.size())
         {
             return std::nullopt;
         }
-- 
2.43.0


From 4b7101077dbe521588181471fbcedc9f65d484d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 32/54] fix: report read errors when reading FQCA layouts and
 truth tables

A stream that breaks while it is read looked like the end of the file, so the
part read so far was returned as if it were everything.
---
 include/fiction/io/read_fqca_layout.hpp | 7 +++++++
 include/fiction/io/tt_reader.hpp        | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/fiction/io/read_fqca_layout.hpp b/include/fiction/io/read_fqca_layout.hpp
index 6afa7aa..52bc731 100644
--- a/include/fiction/io/read_fqca_layout.hpp
+++ b/include/fiction/io/read_fqca_layout.hpp
@@ -11,6 +11,7 @@
 #include <cstdint>
 #include <exception>
 #include <fstream>
+#include <ios>
 #include <istream>
 #include <regex>
 #include <string>
@@ -221,6 +222,12 @@ class read_fqca_layout_impl
             }
         }
 
+        // the end of the loop does not mean the end of the file if the stream is broken
+        if (is.bad())
+        {
+            throw std::ios_base::failure("could not read from stream");
+        }
+
         // resize the layout to fit all cells
         lyt.resize(max_cell_pos);
 
diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 83e3c74..97e810a 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -9,6 +9,7 @@
 #include <kitty/dynamic_truth_table.hpp>
 
 #include <fstream>
+#include <ios>
 #include <iostream>
 #include <istream>
 #include <iterator>
@@ -88,6 +89,13 @@ class tt_reader
         // read the file into a vector of strings
         elements = std::vector<std::string>{std::istream_iterator<std::string>{in_stream},
                                             std::istream_iterator<std::string>{}};
+
+        // the end of the input does not mean the end of the file if the stream is broken
+        if (in_stream.bad())
+        {
+            throw std::ios_base::failure("could not read from stream");
+        }
+
         // TODO fill the vector with an std::copy_if instead. increase a counter and only copy if counter is even
     }
     /**
-- 
2.43.0


From eeaa3a5b7aa5d1d46373f4d81e2613b6c2fa9c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 33/54] fix: keep the number of clocks when writing FGL layouts

---
 include/fiction/io/write_fgl_layout.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 45c8f38..5eae8de 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -5,6 +5,7 @@
 #ifndef FICTION_WRITE_FGL_LAYOUT_HPP
 #define FICTION_WRITE_FGL_LAYOUT_HPP
 
+#include "fiction/layouts/clocking_scheme.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
@@ -147,7 +148,16 @@ class write_fgl_layout_impl
 
         os << fcn::OPEN_CLOCKING;
         const auto clocking_scheme = lyt.get_clocking_scheme();
-        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme.name);
+
+        // schemes that come with different numbers of clocks are told apart by the number following their name, which is
+        // omitted if it is the one the reader assumes by default
+        std::string scheme_name{clocking_scheme.name};
+        if (const auto default_scheme = fiction::get_clocking_scheme<Lyt>(scheme_name);
+            default_scheme.has_value() && default_scheme->num_clocks != clocking_scheme.num_clocks)
+        {
+            scheme_name += std::to_string(clocking_scheme.num_clocks);
+        }
+        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, scheme_name);
 
         // if clocking scheme is irregular, overwrite clock zones
         if (!clocking_scheme.is_regular())
-- 
2.43.0


From d42215de1394b03c94fea016d32be846e5e832a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 34/54] fix: reject malformed truth tables in tt_reader

---
 include/fiction/io/tt_reader.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 97e810a..43f371a 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -8,12 +8,19 @@
 #include <kitty/constructors.hpp>
 #include <kitty/dynamic_truth_table.hpp>
 
+#include <algorithm>
+#include <bit>
+#include <cctype>
+#include <cmath>
+#include <cstddef>
+#include <cstdint>
 #include <fstream>
 #include <ios>
 #include <iostream>
 #include <istream>
 #include <iterator>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -53,7 +60,8 @@ class tt_reader
         }
     }
     /**
-     * Returns the next truth table parsed from the file or std::nullopt if no further truth tables are available.
+     * Returns the next truth table parsed from the file or std::nullopt if no further truth tables are available. Throws
+     * an `std::invalid_argument` exception if the next entry is not a truth table in hexadecimal form.
      *
      * @return Next truth table from the file.
      */
@@ -66,6 +74,12 @@ class tt_reader
 
         // remove the 0x prefix
         auto table = elements[pos].substr(2u);
+        // a table is made up of a power of 2 hexadecimal digits
+        if (!std::has_single_bit(table.size()) ||
+            !std::ranges::all_of(table, [](const unsigned char c) { return std::isxdigit(c) != 0; }))
+        {
+            throw std::invalid_argument("malformed truth table: " + elements[pos]);
+        }
         // determine number of truth table variables
         auto num_vars = static_cast<uint32_t>(std::log2(table.size() << 2ul));
         // create truth table
-- 
2.43.0


From c6884932ac103464f9dbce0605ed5f4d50b36ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 35/54] fix: match surface defect rows without exponential
 backtracking

---
 include/fiction/io/read_sidb_surface_defects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/read_sidb_surface_defects.hpp b/include/fiction/io/read_sidb_surface_defects.hpp
index 620e2e6..21c699c 100644
--- a/include/fiction/io/read_sidb_surface_defects.hpp
+++ b/include/fiction/io/read_sidb_surface_defects.hpp
@@ -66,8 +66,8 @@ namespace sidb_defects
 
 /* Regex */
 
-inline const std::regex RE_DEFECT_MATRIX{R"(\[(?:\s*\d+\s*)+\])"};  // each match is one row
-inline const std::regex RE_ROW_INDICES{R"((\d+))"};                 // each match is one index
+inline const std::regex RE_DEFECT_MATRIX{R"(\[\s*\d[\s\d]*\])"};  // each match is one row
+inline const std::regex RE_ROW_INDICES{R"((\d+))"};              // each match is one index
 
 /**
  * Maps indices in the data format to defect types.
-- 
2.43.0


From 2ccccbd665c42bc8f3fa911bc658f2207d4d3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 36/54] fix: reject FGL gates whose function does not fit their
 number of inputs

---
 include/fiction/io/read_fgl_layout.hpp | 35 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/fiction/io/read_fgl_layout.hpp b/include/fiction/io/read_fgl_layout.hpp
index 4aa43db..2412f56 100644
--- a/include/fiction/io/read_fgl_layout.hpp
+++ b/include/fiction/io/read_fgl_layout.hpp
@@ -511,8 +511,7 @@ class read_fgl_layout_impl
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
-                            kitty::dynamic_truth_table tt_t(1u);
-                            kitty::create_from_hex_string(tt_t, gate.type);
+                            const auto tt_t = parse_function(gate);
                             lyt.create_node({incoming_signal}, tt_t, location);
                         }
                     }
@@ -608,8 +607,7 @@ class read_fgl_layout_impl
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
-                            kitty::dynamic_truth_table tt_t(2u);
-                            kitty::create_from_hex_string(tt_t, gate.type);
+                            const auto tt_t = parse_function(gate);
                             lyt.create_node({incoming_signal_1, incoming_signal_2}, tt_t, location);
                         }
                     }
@@ -643,8 +641,7 @@ class read_fgl_layout_impl
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
-                            kitty::dynamic_truth_table tt_t(3u);
-                            kitty::create_from_hex_string(tt_t, gate.type);
+                            const auto tt_t = parse_function(gate);
                             lyt.create_node({incoming_signal_1, incoming_signal_2, incoming_signal_3}, tt_t, location);
                         }
                     }
@@ -658,7 +655,6 @@ class read_fgl_layout_impl
                 {
                     if constexpr (mockturtle::has_create_node_v<Lyt>)
                     {
-                        const auto                           num_incoming_signals = gate.incoming.size();
                         std::vector<mockturtle::signal<Lyt>> incoming_signals{};
                         for (const auto& in : gate.incoming)
                         {
@@ -666,8 +662,7 @@ class read_fgl_layout_impl
                             const auto      incoming_signal_i = lyt.make_signal(lyt.get_node(incoming_tile_i));
                             incoming_signals.push_back(incoming_signal_i);
                         }
-                        kitty::dynamic_truth_table tt_t(static_cast<uint32_t>(num_incoming_signals));
-                        kitty::create_from_hex_string(tt_t, gate.type);
+                        const auto tt_t = parse_function(gate);
                         lyt.create_node({incoming_signals}, tt_t, location);
                     }
                 }
@@ -733,6 +728,28 @@ class read_fgl_layout_impl
             return gate1.id < gate2.id;
         }
     };
+    /**
+     * Parses the function of a gate that is given in hexadecimal form.
+     *
+     * @param gate The gate whose type is its function in hexadecimal form.
+     * @return The function of the gate.
+     */
+    [[nodiscard]] static kitty::dynamic_truth_table parse_function(const gate_storage& gate)
+    {
+        const auto num_vars = gate.incoming.size();
+
+        // a function of n variables is made up of 2^n bits, i.e., 2^(n-2) hexadecimal digits, but at least of one
+        if (num_vars >= 32 || gate.type.size() != (num_vars <= 2 ? 1ul : 1ul << (num_vars - 2)))
+        {
+            throw fgl_parsing_error(fmt::format("Error parsing FGL file: '{}' is not a function of {} input signals",
+                                                gate.type, num_vars));
+        }
+
+        kitty::dynamic_truth_table tt{static_cast<uint32_t>(num_vars)};
+        kitty::create_from_hex_string(tt, gate.type);
+
+        return tt;
+    }
 };
 
 }  // namespace detail
-- 
2.43.0


From 61ff58bfd7dd096d0d81e463d840b1576b8b61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 37/54] fix: reject SQD defects whose label has no text

---
 include/fiction/io/read_sqd_layout.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index 4fb4202..25c8556 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -391,7 +391,14 @@ class read_sqd_layout_impl
                 {
                     if (const auto* const val = type_label->FirstChildElement("val"); val != nullptr)
                     {
-                        defect_type = parse_defect_label(val->GetText());
+                        const auto* const label = val->GetText();
+
+                        if (label == nullptr)
+                        {
+                            throw sqd_parsing_error("Error parsing SQD file: no text in element 'val'");
+                        }
+
+                        defect_type = parse_defect_label(label);
                     }
                 }
             }
-- 
2.43.0


From 471cf5a2d5e5c23770b3ac37289903f45c7c121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 38/54] fix: reject SQD defects with negative permittivity or
 screening length

---
 include/fiction/io/read_sqd_layout.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index 25c8556..62b054c 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -420,6 +420,12 @@ class read_sqd_layout_impl
                 charge    = std::stoll(charge_string);
                 eps_r     = std::stod(eps_r_string);
                 lambda_tf = std::stod(lambda_tf_string);
+
+                if (!(eps_r >= 0.0) || !(lambda_tf >= 0.0))
+                {
+                    throw sqd_parsing_error(
+                        "Error parsing SQD file: attributes 'eps_r' and 'lambda_tf' must not be negative");
+                }
             }
 
             std::ranges::for_each(
-- 
2.43.0


From 6cc662fe58289fe58a4521cffbe4abd378c79f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 39/54] fix: count runs of QuickSim without a result in the
 time-to-solution

---
 .../simulation/sidb/time_to_solution.hpp       | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
index a7591f7..6b512f3 100644
--- a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
@@ -145,16 +145,16 @@ void time_to_solution(const Lyt& lyt, const quicksim_params& quicksim_params,
 
     for (auto i = 0u; i < tts_params.repetitions; ++i)
     {
-        if (const auto result = quicksim<Lyt>(lyt, quicksim_params))
+        const auto result = quicksim<Lyt>(lyt, quicksim_params);
+
+        // a run without a result did not find the ground state, which counts towards the accuracy
+        if (!result.has_value())
+        {
+            simulation_results_quicksim.push_back(sidb_simulation_result<Lyt>{});
+        }
+        else
         {
-            if (!result.has_value())
-            {
-                simulation_results_quicksim.push_back(sidb_simulation_result<Lyt>{});
-            }
-            else
-            {
-                simulation_results_quicksim.push_back(*result);
-            }
+            simulation_results_quicksim.push_back(*result);
         }
     }
 
-- 
2.43.0


From 36e835ff6af39d50e864a4db7a77cda45cdba1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 40/54] fix: compare ground states by charge states instead of
 charge indices of different bases

---
 .../simulation/sidb/is_ground_state.hpp       | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
index 32e5992..3926072 100644
--- a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
@@ -8,9 +8,8 @@
 #include "fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp"
 #include "fiction/traits.hpp"
 
+#include <algorithm>
 #include <cassert>
-#include <cstdint>
-#include <unordered_set>
 
 namespace fiction
 {
@@ -49,19 +48,20 @@ template <typename Lyt>
         return false;
     }
 
-    std::unordered_set<uint64_t> indices_ground_state_heuristic{};
-
-    // Collect all charge indices of the ground states simulated by the heuristic.
-    for (const auto& cds : ground_state_charge_distributions_heuristic)
+    // The charge indices of the two results are not comparable in general, because the algorithms may use different base
+    // numbers. Hence, the charge states themselves are compared.
+    const auto have_equal_charge_states = [](const auto& cds1, const auto& cds2) noexcept
     {
-        indices_ground_state_heuristic.insert(cds.get_charge_index_and_base().first);
-    }
+        return std::ranges::all_of(cds1.get_sidb_order(), [&cds1, &cds2](const auto& c)
+                                   { return cds1.get_charge_state(c) == cds2.get_charge_state(c); });
+    };
 
     // Check if the heuristic has found all ground states.
-    for (const auto& cds : ground_state_charge_distributions_exact)
+    for (const auto& cds_exact : ground_state_charge_distributions_exact)
     {
-        if (indices_ground_state_heuristic.find(cds.get_charge_index_and_base().first) ==
-            indices_ground_state_heuristic.cend())
+        if (std::ranges::none_of(ground_state_charge_distributions_heuristic,
+                                 [&have_equal_charge_states, &cds_exact](const auto& cds_heuristic)
+                                 { return have_equal_charge_states(cds_exact, cds_heuristic); }))
         {
             return false;
         }
-- 
2.43.0


From bad500d0ad1e574ea428c174f9d345d65197369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 41/54] fix: do not assert that a heuristic's lowest states are
 no more than the ground states

---
 .../fiction/algorithms/simulation/sidb/is_ground_state.hpp   | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
index 3926072..f15c671 100644
--- a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
@@ -9,7 +9,6 @@
 #include "fiction/traits.hpp"
 
 #include <algorithm>
-#include <cassert>
 
 namespace fiction
 {
@@ -40,9 +39,7 @@ template <typename Lyt>
 
     const auto ground_state_charge_distributions_heuristic = heuristic_results.groundstates();
 
-    assert(ground_state_charge_distributions_heuristic.size() <= ground_state_charge_distributions_exact.size() &&
-           "The heuristic results must be less equal than the exact results.");
-
+    // a heuristic that missed the ground state may have found a more degenerate excited state
     if (ground_state_charge_distributions_exact.size() != ground_state_charge_distributions_heuristic.size())
     {
         return false;
-- 
2.43.0


From 284fe953ccd5b0f4a9a9bd1510bfb2ffbd06e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 42/54] fix: do not skip the first aspect ratio in the
 multi-threaded exact physical design

---
 include/fiction/algorithms/physical_design/exact.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index baedbd9..563d25e 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -2904,8 +2904,8 @@ class exact_impl
             {
                 const std::scoped_lock guard{ari_mutex};
 
-                ++ari;
-                ar = *ari;  // operations ++ and * are split to prevent a vector copy construction
+                ar = *ari;
+                ++ari;  // operations * and ++ are split to prevent a vector copy construction
 
                 // log the examination of a new aspect ratio
                 pst.num_aspect_ratios++;
-- 
2.43.0


From c23c76727b224f4f09b7d7d5c9bb8aa189737ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 43/54] fix: set up the SMT handlers of the exact physical
 design before its threads run

---
 .../algorithms/physical_design/exact.hpp      | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 563d25e..7bc4772 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -2872,13 +2872,22 @@ class exact_impl
          */
         ctx_ptr ctx;
         /**
-         * Currently examined layout aspect ratio.
+         * Layout sketch the worker is operating on.
+         */
+        Lyt layout;
+        /**
+         * SMT handler of the worker. The views it consists of register themselves at and traverse the network that is
+         * shared among all workers. Hence, it must neither be created nor destroyed while any other worker is running.
+         */
+        std::unique_ptr<smt_handler> handler;
+        /**
+         * Currently examined layout aspect ratio. Access is restricted by `rar_mutex`.
          */
         typename Lyt::aspect_ratio worker_aspect_ratio;
     };
     /**
-     * Thread function for the asynchronous solving strategy. It registers its own context in the given list of
-     * thread_info objects and starts exploring the search space. It fetches the next aspect ratio to work on from the
+     * Thread function for the asynchronous solving strategy. It uses its own context and SMT handler from the given list
+     * of thread_info objects and starts exploring the search space. It fetches the next aspect ratio to work on from the
      * global aspect ratio iterator which is protected by a mutex. When a result is found, other threads that are
      * currently working on larger layout aspect ratios are interrupted while smaller ones may finish running.
      *
@@ -2889,12 +2898,8 @@ class exact_impl
     [[nodiscard]] std::optional<Lyt> explore_asynchronously(const unsigned                                   t_num,
                                                             const std::shared_ptr<std::vector<thread_info>>& ti_list)
     {
-        const auto ctx = std::make_shared<z3::context>();
-
-        Lyt layout{{}, scheme};
-
-        smt_handler handler{ctx, layout, *ntk, ps, black_list};
-        (*ti_list)[t_num].ctx = ctx;
+        auto& layout  = (*ti_list)[t_num].layout;
+        auto& handler = *(*ti_list)[t_num].handler;
 
         while (true)
         {
@@ -3017,6 +3022,13 @@ class exact_impl
 
             const auto ti_list = std::make_shared<std::vector<thread_info>>(ps.num_threads);
 
+            for (auto& ti : *ti_list)
+            {
+                ti.ctx     = std::make_shared<z3::context>();
+                ti.layout  = Lyt{{}, scheme};
+                ti.handler = std::make_unique<smt_handler>(ti.ctx, ti.layout, *ntk, ps, black_list);
+            }
+
 #if (PROGRESS_BARS)
             mockturtle::progress_bar thread_bar("[i] examining layout aspect ratios using {} threads");
             thread_bar(ps.num_threads);
-- 
2.43.0


From 0cccaac501357d3ee104f2c50b62ec9e2dd550c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 44/54] fix: measure the timeout of the multi-threaded exact
 physical design without shared state and handle it in the threads

---
 .../fiction/algorithms/physical_design/exact.hpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 7bc4772..7a18bb1 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -2893,10 +2893,12 @@ class exact_impl
      *
      * @param t_num Thread's identifier.
      * @param ti_list Pointer to a list of shared thread info that the threads use for communication.
+     * @param start_time Time at which the solving process was started.
      * @return A found layout or nullptr if being interrupted.
      */
     [[nodiscard]] std::optional<Lyt> explore_asynchronously(const unsigned                                   t_num,
-                                                            const std::shared_ptr<std::vector<thread_info>>& ti_list)
+                                                            const std::shared_ptr<std::vector<thread_info>>& ti_list,
+                                                            const std::chrono::steady_clock::time_point      start_time)
     {
         auto& layout  = (*ti_list)[t_num].layout;
         auto& handler = *(*ti_list)[t_num].handler;
@@ -2947,8 +2949,6 @@ class exact_impl
 
             try
             {
-                mockturtle::stopwatch stop{pst.time_total};
-
                 if (handler.is_satisfiable())  // found a layout
                 {
                     // mutually exclusive access to the result_aspect_ratio
@@ -2991,13 +2991,14 @@ class exact_impl
                 // state could be stored that could positively influence performance of later SMT calls
 
                 handler.store_solver_state(ar);
+
+                // pst.time_total is measured by the launching thread and must not be accessed here
+                update_timeout(handler, std::chrono::steady_clock::now() - start_time);
             }
             catch (const z3::exception&)  // timed out or interrupted
             {
                 return std::nullopt;
             }
-
-            update_timeout(handler, pst.time_total);
         }
 
         // unreachable code, but compiler complains if it's not there
@@ -3017,6 +3018,8 @@ class exact_impl
         {
             mockturtle::stopwatch stop{pst.time_total};
 
+            const auto start_time = std::chrono::steady_clock::now();
+
             using fut_layout = std::future<std::optional<Lyt>>;
             std::vector<fut_layout> fut(ps.num_threads);
 
@@ -3041,7 +3044,7 @@ class exact_impl
 
             for (auto i = 0u; i < ps.num_threads; ++i)
             {
-                fut[i] = std::async(std::launch::async, &exact_impl::explore_asynchronously, this, i, ti_list);
+                fut[i] = std::async(std::launch::async, &exact_impl::explore_asynchronously, this, i, ti_list, start_time);
             }
 
             // wait for every task to finish running. This is the join that makes the unguarded `result_aspect_ratio`
-- 
2.43.0


From 32f166ce69ae14e98d3a227a2c55b2985e73860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 45/54] fix: guard the aspect ratios that the threads of the
 exact physical design are working on

---
 .../algorithms/physical_design/exact.hpp       | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 7a18bb1..7e3a3fb 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -2941,10 +2941,12 @@ class exact_impl
                         return std::nullopt;
                     }
                 }
+
+                // update aspect ratio in the thread_info list
+                (*ti_list)[t_num].worker_aspect_ratio = ar;
             }
 
-            // update aspect ratio in the thread_info list and the handler
-            (*ti_list)[t_num].worker_aspect_ratio = ar;
+            // update aspect ratio in the handler
             handler.update(ar);
 
             try
@@ -2971,14 +2973,14 @@ class exact_impl
                                 return std::nullopt;
                             }
                         }
-                    }
 
-                    // interrupt other threads that are working on higher aspect ratios
-                    for (const auto& ti : *ti_list)
-                    {
-                        if (area(ar) <= area(ti.worker_aspect_ratio))
+                        // interrupt other threads that are working on higher aspect ratios
+                        for (const auto& ti : *ti_list)
                         {
-                            ti.ctx->interrupt();
+                            if (area(ar) <= area(ti.worker_aspect_ratio))
+                            {
+                                ti.ctx->interrupt();
+                            }
                         }
                     }
 
-- 
2.43.0


From cdaaa5ce10aa58f99e2129b6d8f5857436ff0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 46/54] fix: apply the timeout of the exact physical design to
 every check of the SMT solver

---
 .../algorithms/physical_design/exact.hpp      | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 7e3a3fb..0e176bc 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -353,12 +353,14 @@ class exact_impl
             solver = check_point->state->solver;
         }
         /**
-         * Sets the given timeout for the current solver.
+         * Sets the given timeout for the current solver and for the optimizer that might be created from it.
          *
          * @param t Timeout in ms.
          */
         void set_timeout(const unsigned t)
         {
+            timeout = t;
+
             z3::params p{*ctx};
             p.set("timeout", t);
             solver->set(p);
@@ -521,6 +523,10 @@ class exact_impl
          * Assumption literal counter.
          */
         std::size_t lc = 0ul;
+        /**
+         * Timeout in ms for the current solver if one was set.
+         */
+        std::optional<unsigned> timeout{};
         /**
          * Tree-like structure mapping already examined aspect ratios to respective solver states for later reuse.
          * Due to the rather suboptimal exploration strategy of factorizing tile counts, multiple solver states need to
@@ -2620,6 +2626,14 @@ class exact_impl
             // non-const to automatically move optimizer via RVO
             auto optimizer = std::make_shared<z3::optimize>(*ctx);
 
+            // the optimizer is subject to the same timeout as the solver
+            if (timeout.has_value())
+            {
+                z3::params p{*ctx};
+                p.set("timeout", *timeout);
+                optimizer->set(p);
+            }
+
             // add all solver constraints
             for (const auto& e : solver->assertions())
             {
@@ -2951,6 +2965,9 @@ class exact_impl
 
             try
             {
+                // pst.time_total is measured by the launching thread and must not be accessed here
+                update_timeout(handler, std::chrono::steady_clock::now() - start_time);
+
                 if (handler.is_satisfiable())  // found a layout
                 {
                     // mutually exclusive access to the result_aspect_ratio
@@ -2993,9 +3010,6 @@ class exact_impl
                 // state could be stored that could positively influence performance of later SMT calls
 
                 handler.store_solver_state(ar);
-
-                // pst.time_total is measured by the launching thread and must not be accessed here
-                update_timeout(handler, std::chrono::steady_clock::now() - start_time);
             }
             catch (const z3::exception&)  // timed out or interrupted
             {
@@ -3142,6 +3156,8 @@ class exact_impl
 
             try
             {
+                update_timeout(handler, pst.time_total);
+
                 const auto sat =
                     mockturtle::call_with_stopwatch(pst.time_total, [&handler] { return handler.is_satisfiable(); });
 
@@ -3158,8 +3174,6 @@ class exact_impl
                 }
 
                 handler.store_solver_state(ar);
-
-                update_timeout(handler, pst.time_total);
             }
             catch (const z3::exception&)
             {
-- 
2.43.0


From 5b477ac6893a5fdbf724f977b03da25ba806c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 47/54] fix: use the solver's model if the optimization in the
 exact physical design does not finish

---
 include/fiction/algorithms/physical_design/exact.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 0e176bc..26f3110 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -381,10 +381,9 @@ class exact_impl
 
             if (const auto z3_result = solver->check(check_point->assumptions); z3_result == z3::sat)
             {
-                // optimize the generated result
-                if (auto opt = optimize(); opt != nullptr)
+                // optimize the generated result; if that does not finish, there is still the solver's own model
+                if (auto opt = optimize(); opt != nullptr && opt->check() == z3::sat)
                 {
-                    opt->check();
                     assign_layout(opt->get_model());
                 }
                 else
-- 
2.43.0


From b1e5caf00cc21f67f481148050b72f8fb20a708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 48/54] fix: handle interrupts and failures of the exact
 physical design's solver wherever they occur

---
 .../fiction/algorithms/physical_design/exact.hpp   | 14 ++++++++------
 include/fiction/layouts/cartesian_layout.hpp       |  4 ++--
 include/fiction/layouts/hexagonal_layout.hpp       |  2 +-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 26f3110..bd23d50 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -345,7 +345,7 @@ class exact_impl
          *
          * @param ar Current aspect ratio to work on.
          */
-        void update(const typename Lyt::aspect_ratio& ar) noexcept
+        void update(const typename Lyt::aspect_ratio& ar)
         {
             layout.resize({ar.x, ar.y, params.crossings ? 1 : 0});
             check_point = std::make_shared<solver_check_point>(fetch_solver(ar));
@@ -2959,11 +2959,12 @@ class exact_impl
                 (*ti_list)[t_num].worker_aspect_ratio = ar;
             }
 
-            // update aspect ratio in the handler
-            handler.update(ar);
-
             try
             {
+                // update aspect ratio in the handler; this throws if the worker has been interrupted or the solver runs
+                // out of resources
+                handler.update(ar);
+
                 // pst.time_total is measured by the launching thread and must not be accessed here
                 update_timeout(handler, std::chrono::steady_clock::now() - start_time);
 
@@ -3151,10 +3152,11 @@ class exact_impl
             bar(ar.x + 1, ar.y + 1);
 #endif
 
-            handler.update(ar);
-
             try
             {
+                // this throws if the solver runs out of resources
+                handler.update(ar);
+
                 update_timeout(handler, pst.time_total);
 
                 const auto sat =
diff --git a/include/fiction/layouts/cartesian_layout.hpp b/include/fiction/layouts/cartesian_layout.hpp
index 1294f3b..e7fdec0 100644
--- a/include/fiction/layouts/cartesian_layout.hpp
+++ b/include/fiction/layouts/cartesian_layout.hpp
@@ -753,7 +753,7 @@ class cartesian_layout
     template <typename Fn>
     void foreach_adjacent_coordinate(const OffsetCoordinateType& c, Fn&& fn) const
     {
-        const auto apply_if_not_c = [&c, &fn](const auto& cardinal) noexcept
+        const auto apply_if_not_c = [&c, &fn](const auto& cardinal)
         {
             if (cardinal != c)
             {
@@ -797,7 +797,7 @@ class cartesian_layout
     template <typename Fn>
     void foreach_adjacent_opposite_coordinates(const OffsetCoordinateType& c, Fn&& fn) const
     {
-        const auto apply_if_not_c = [&c, &fn](auto cardinal1, auto cardinal2) noexcept
+        const auto apply_if_not_c = [&c, &fn](auto cardinal1, auto cardinal2)
         {
             if (cardinal1 != c && cardinal2 != c)
             {
diff --git a/include/fiction/layouts/hexagonal_layout.hpp b/include/fiction/layouts/hexagonal_layout.hpp
index 060a3d2..05dc378 100644
--- a/include/fiction/layouts/hexagonal_layout.hpp
+++ b/include/fiction/layouts/hexagonal_layout.hpp
@@ -982,7 +982,7 @@ class hexagonal_layout
     template <typename Fn>
     void foreach_adjacent_opposite_coordinates(const OffsetCoordinateType& c, Fn&& fn) const
     {
-        const auto apply_if_not_c = [&c, &fn](auto cardinal1, auto cardinal2) noexcept
+        const auto apply_if_not_c = [&c, &fn](auto cardinal1, auto cardinal2)
         {
             if (cardinal1 != c && cardinal2 != c)
             {
-- 
2.43.0


From 57bd83cba44d6b075c99300cecb93c4b9dcc1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 49/54] fix: report a critical temperature of 0 K if no
 physically valid charge distribution was found

---
 .../simulation/sidb/critical_temperature.hpp          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
index 2280e71..23ae44f 100644
--- a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
+++ b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
@@ -321,10 +321,6 @@ class critical_temperature_impl
             {
                 simulation_results = result.value();
             }
-            else
-            {
-                return;
-            }
         }
         else
         {
@@ -334,6 +330,13 @@ class critical_temperature_impl
         // The number of physically valid charge configurations is stored.
         stats.num_valid_lyt = simulation_results.charge_distributions.size();
 
+        // without a physically valid charge configuration, there is no ground state that could be populated
+        if (simulation_results.charge_distributions.empty())
+        {
+            critical_temperature = 0.0;
+            return;
+        }
+
         const auto distribution = calculate_energy_distribution(simulation_results.charge_distributions);
 
         // if there is more than one metastable state
-- 
2.43.0


From fda603d043e03d0ef9970579c277e77af0906611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:51 +0000
Subject: [PATCH 50/54] fix: do not require input cells in pre-generated input
 pattern layouts

---
 .../algorithms/simulation/sidb/critical_temperature.hpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
index 23ae44f..f32c8f7 100644
--- a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
+++ b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
@@ -187,7 +187,8 @@ class critical_temperature_impl
             return;
         }
 
-        assert(layout.num_pis() > 0 && "gate needs input cells");
+        // a pre-generated layout has no input cells if the input pattern is encoded by the absence of perturbers
+        assert((input_pattern_layouts != nullptr || layout.num_pis() > 0) && "gate needs input cells");
         assert(layout.num_pos() > 0 && "gate needs output cells");
 
         if (layout.num_cells() > 1)
-- 
2.43.0


From 683d1ae3a9f232e55c7dce846fb837ee91c45dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:31 +0000
Subject: [PATCH 51/54] fix: count charge distributions that QuickSim reports
 repeatedly once in the critical temperature

---
 .../simulation/sidb/critical_temperature.hpp  | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
index f32c8f7..3a3e184 100644
--- a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
+++ b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
@@ -21,6 +21,7 @@
 #include "fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp"
 #include "fiction/technology/cell_technologies.hpp"
 #include "fiction/technology/constants.hpp"
+#include "fiction/technology/sidb_charge_state.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/math_utils.hpp"
 
@@ -32,6 +33,7 @@
 #include <cstdint>
 #include <iostream>
 #include <limits>
+#include <set>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -320,7 +322,7 @@ class critical_temperature_impl
             // state simulation is used).
             if (const auto result = quicksim(layout, qs_params); result.has_value())
             {
-                simulation_results = result.value();
+                simulation_results = without_repeated_charge_distributions(result.value());
             }
         }
         else
@@ -529,6 +531,31 @@ class critical_temperature_impl
 
         return *bii;
     }
+    /**
+     * *QuickSim* reports a charge distribution each time that it is found. Since the occupation probability of a charge
+     * distribution does not depend on how often a heuristic comes across it, repetitions are removed.
+     *
+     * @param sim_result Simulation result that possibly contains charge distributions more than once.
+     * @return The simulation result with each charge distribution contained once.
+     */
+    [[nodiscard]] static sidb_simulation_result<Lyt>
+    without_repeated_charge_distributions(const sidb_simulation_result<Lyt>& sim_result)
+    {
+        auto unique_result = sim_result;
+        unique_result.charge_distributions.clear();
+
+        std::set<std::vector<sidb_charge_state>> known_charge_states{};
+
+        for (const auto& charge_distribution : sim_result.charge_distributions)
+        {
+            if (known_charge_states.insert(charge_distribution.get_all_sidb_charges()).second)
+            {
+                unique_result.charge_distributions.push_back(charge_distribution);
+            }
+        }
+
+        return unique_result;
+    }
     /**
      * This function conducts physical simulation of the given layout (gate layout with certain input combination).
      * The simulation results are stored in the `sim_result_100` variable.
@@ -571,7 +598,7 @@ class critical_temperature_impl
 
             if (const auto result = quicksim<Lyt>(lyt_with_input_pattern, qs_params))
             {
-                return result.value();
+                return without_repeated_charge_distributions(result.value());
             }
             return sidb_simulation_result<Lyt>{};  // return empty result if no valid charge distribution was found
         }
-- 
2.43.0


From 53fb2ff07db7dd8863aef92eacaa4c79dd179aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 52/54] fix: report an input pattern without physically valid
 charge distributions as non-operational

---
 include/fiction/algorithms/simulation/sidb/is_operational.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index c4f786e..aa3127e 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -583,6 +583,8 @@ class is_operational_impl
             // if no physically valid charge distributions were found, the layout is non-operational
             if (simulation_results.charge_distributions.empty())
             {
+                non_operational_input_pattern_and_non_operationality_reason.emplace_back(
+                    i, non_operationality_reason::LOGIC_MISMATCH);
                 continue;
             }
 
-- 
2.43.0


From e6173be091f6eace93ef236a637d4328c7387945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 53/54] fix: do not report an input pattern as kink-induced if
 a degenerate ground state mismatches the logic

---
 .../algorithms/simulation/sidb/is_operational.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index aa3127e..8388f31 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -590,14 +590,27 @@ class is_operational_impl
 
             const auto ground_states = simulation_results.groundstates();
 
+            auto pattern_reason = non_operationality_reason::NONE;
+
             for (const auto& gs : ground_states)
             {
                 const auto [op_status, non_op_reason] = verify_logic_match_of_cds(gs, i);
                 if (op_status == operational_status::NON_OPERATIONAL)
                 {
-                    non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, non_op_reason);
+                    pattern_reason = non_op_reason;
+
+                    // kinks are the reason only if no degenerate ground state has any other one
+                    if (pattern_reason != non_operationality_reason::KINKS)
+                    {
+                        break;
+                    }
                 }
             }
+
+            if (pattern_reason != non_operationality_reason::NONE)
+            {
+                non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, pattern_reason);
+            }
         }
 
         // if we made it here, the layout is operational
-- 
2.43.0


From eb19f76532119b31bbf22d9e3e695cd2c20143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 54/54] fix: blame kinks alone only if no input pattern
 mismatches the logic

---
 .../simulation/sidb/is_operational.hpp        | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index 8388f31..bcff37d 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -616,6 +616,21 @@ class is_operational_impl
         // if we made it here, the layout is operational
         return non_operational_input_pattern_and_non_operationality_reason;
     }
+    /**
+     * Determines whether the layout is non-operational and kinks are the only reason for it, i.e., whether there is at
+     * least one input pattern with kinks and no input pattern for which the layout is non-operational for any other
+     * reason.
+     *
+     * @return `true` if kinks are the only reason for the layout to be non-operational, `false` otherwise.
+     */
+    [[nodiscard]] bool is_non_operational_due_to_kinks_only() noexcept
+    {
+        const auto reasons = determine_non_operational_input_patterns_and_non_operationality_reason();
+
+        return !reasons.empty() &&
+               std::ranges::all_of(reasons, [](const auto& pattern_and_reason)
+                                   { return pattern_and_reason.second == non_operationality_reason::KINKS; });
+    }
     /**
      * Returns the total number of simulator invocations.
      *
@@ -1684,10 +1699,7 @@ template <typename Lyt, typename TT>
 
     detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks};
 
-    const auto [op_status, non_op_reason] = p.run();
-
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    return p.is_non_operational_due_to_kinks_only();
 }
 
 /**
@@ -1735,18 +1747,12 @@ template <typename Lyt, typename TT>
         detail::is_operational_impl<Lyt, TT> p{
             lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire, canvas_lyt.value()};
 
-        const auto [op_status, non_op_reason] = p.run();
-
-        return op_status == operational_status::NON_OPERATIONAL &&
-               non_op_reason == detail::non_operationality_reason::KINKS;
+        return p.is_non_operational_due_to_kinks_only();
     }
 
     detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire};
 
-    const auto [op_status, non_op_reason] = p.run();
-
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    return p.is_non_operational_due_to_kinks_only();
 }
 
 }  // namespace fiction
-- 
2.43.0

