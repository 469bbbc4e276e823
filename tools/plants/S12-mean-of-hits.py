id="S12-mean-of-hits"; prop="S12"
needs="repetitions of different duration of which some find the ground state and some do not"
breaks="only the run time of successful repetitions is added up but divided by all of them: mean run time and time-to-solution are too short"
H="include/fiction/algorithms/simulation/sidb/time_to_solution.hpp"
edits=[(H,"""            ++gs_count;
        }
        total_runtime_heuristic += mockturtle::to_seconds(heuristic.simulation_runtime);
""","""            ++gs_count;
            total_runtime_heuristic += mockturtle::to_seconds(heuristic.simulation_runtime);
        }
""")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
PRE=r'''
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <cmath>
#include <cstdio>
using base_t = fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>;
using lyt_t  = fiction::sidb_lattice<fiction::sidb_100_lattice, base_t>;
using res_t  = fiction::sidb_simulation_result<lyt_t>;
static fiction::time_to_solution_stats run(int good, int bad, double confidence)
{
    lyt_t l{};
    l.assign_cell_type({0, 0, 0}, fiction::sidb_technology::cell_type::NORMAL);
    l.assign_cell_type({20, 0, 0}, fiction::sidb_technology::cell_type::NORMAL);
    const fiction::sidb_simulation_parameters sp{2, -0.32};
    auto exact = fiction::quickexact(l, fiction::quickexact_params<fiction::cell<lyt_t>>{sp});
    std::vector<res_t> h{};
    for (int i = 0; i < good + bad; ++i)
    {
        res_t r{};
        r.simulation_runtime = std::chrono::duration<double>{i < good ? 1.0 : 3.0};
        if (i < good) { r.charge_distributions = exact.charge_distributions; }
        h.push_back(r);
    }
    fiction::time_to_solution_stats st{};
    fiction::time_to_solution_for_given_simulation_results(exact, h, confidence, &st);
    return st;
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
'''
demo=PRE+r'''
int main()
{
    const auto st = run(3, 1, 0.997);
    if (!near(st.acc, 75)) { std::puts("accuracy"); return 1; }
    if (!near(st.mean_single_runtime, 1.5)) { std::printf("mean %g\n", st.mean_single_runtime); return 1; }
    return 0;
}
'''
