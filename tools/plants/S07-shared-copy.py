id="S07-shared-copy"; prop="S07"
needs="two worker threads judging different parameter points at the same time"
breaks="all worker threads re-parameterise one working copy of the charge distribution surface instead of a copy of their own: points get the verdict of other points"
H="include/fiction/algorithms/simulation/sidb/operational_domain.hpp"
edits=[(H,"    operational_status is_step_point_suitable(Lyt lyt, const step_point& sp) noexcept\n","    operational_status is_step_point_suitable(Lyt& lyt, const step_point& sp) noexcept\n"),
(H,"            threads.emplace_back(\n                [this, &lyt, start, end, &all_index_combinations]\n","            threads.emplace_back(\n                [this, &work, start, end, &all_index_combinations]\n"),
(H,"                        is_step_point_suitable(lyt, step_point{*it});  // construct a step_point\n","                        is_step_point_suitable(work, step_point{*it});  // construct a step_point\n"),
(H,"        const mockturtle::stopwatch stop{stats.time_total};\n\n        // Cartesian product of all step point indices\n        const auto all_index_combinations = cartesian_combinations(indices);\n\n        // number of threads. Floored at `1` so that the slice arithmetic below stays well-defined when there is\n        // nothing to distribute; the `start >= end` guard in the loop then keeps the worker from being launched\n        const auto num_threads = std::max(std::min(number_of_threads, all_index_combinations.size()), std::size_t{1});\n\n        // calculate the size of each slice\n        const auto slice_size = (all_index_combinations.size() + num_threads - 1) / num_threads;\n\n        std::vector<std::thread> threads{};\n        threads.reserve(num_threads);\n\n        // launch threads, each with its own slice of random step points\n        for (auto i = 0ul; i < num_threads; ++i)\n        {\n            const auto start = i * slice_size;\n            const auto end   = std::min(start + slice_size, all_index_combinations.size());\n\n            if (start >= end)\n            {\n                break;  // no more work to distribute\n            }\n\n            threads.emplace_back(\n                [this, &work,",
"        const mockturtle::stopwatch stop{stats.time_total};\n\n        // the given layout must stay as it is; the points are judged on a working copy\n        Lyt work{lyt};\n\n        // Cartesian product of all step point indices\n        const auto all_index_combinations = cartesian_combinations(indices);\n\n        // number of threads. Floored at `1` so that the slice arithmetic below stays well-defined when there is\n        // nothing to distribute; the `start >= end` guard in the loop then keeps the worker from being launched\n        const auto num_threads = std::max(std::min(number_of_threads, all_index_combinations.size()), std::size_t{1});\n\n        // calculate the size of each slice\n        const auto slice_size = (all_index_combinations.size() + num_threads - 1) / num_threads;\n\n        std::vector<std::thread> threads{};\n        threads.reserve(num_threads);\n\n        // launch threads, each with its own slice of random step points\n        for (auto i = 0ul; i < num_threads; ++i)\n        {\n            const auto start = i * slice_size;\n            const auto end   = std::min(start + slice_size, all_index_combinations.size());\n\n            if (start >= end)\n            {\n                break;  // no more work to distribute\n            }\n\n            threads.emplace_back(\n                [this, &work,")]
shim=True; harness=[]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=1"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 200 setarch -R "$W/demo" || exit 1'''
demo=r'''
#include <fiction/algorithms/simulation/sidb/physically_valid_parameters.hpp>
#include <fiction/types.hpp>
#include <cstdio>
using lyt_t = fiction::sidb_100_cell_clk_lyt_siqad;
int main()
{
    lyt_t lyt{};
    using t = fiction::sidb_technology::cell_type;
    for (int i = 0; i < 5; ++i) lyt.assign_cell_type({i * 6, i % 2, 0}, t::NORMAL);
    fiction::sidb_simulation_parameters sp{2, -0.32};
    fiction::charge_distribution_surface<lyt_t> cds{lyt, sp};
    fiction::operational_domain_params ps{};
    ps.operational_params.simulation_parameters = sp;
    ps.sweep_dimensions = {{fiction::sweep_parameter::EPSILON_R, 1.0, 8.0, 0.25}, {fiction::sweep_parameter::LAMBDA_TF, 1.0, 8.0, 0.5}};
    ps.number_of_threads = 8;
    const auto d = fiction::physically_valid_parameters(cds, ps);
    size_t n = 0;
    for (double e = 1.0; e <= 8.01; e += 0.25)
        for (double l = 1.0; l <= 8.01; l += 0.5)
        {
            auto s = sp; s.epsilon_r = e; s.lambda_tf = l;
            fiction::charge_distribution_surface<lyt_t> c{lyt, s};
            ++n;
            if (c.is_physically_valid() != d.contains(fiction::parameter_point{{e, l}}).has_value()) { std::printf("%g %g\n", e, l); return 1; }
        }
    return 0;
}
'''
