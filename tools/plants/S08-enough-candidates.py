id="S08-enough-candidates"; prop="S08"
needs="QuickCell looking for the first solution where the candidates that pass the filters first all fail the simulation"
breaks="the pruning stops as soon as every worker thread has a candidate to simulate, so a solution behind it is never met and QuickCell returns nothing"
H="include/fiction/algorithms/physical_design/design_sidb_gates.hpp"
edits=[(H,"""                        conduct_pruning_steps(all_canvas_layouts[j]);
""","""                        // one candidate per thread suffices for the simulation if a single solution is asked for
                        if (params.termination_cond ==
                                design_sidb_gates_params<cell<Lyt>>::termination_condition::AFTER_FIRST_SOLUTION &&
                            params.design_mode == design_sidb_gates_params<cell<Lyt>>::design_sidb_gates_mode::QUICKCELL)
                        {
                            const std::scoped_lock lock{mutex_to_protect_gate_candidates};

                            if (gate_candidate.size() >= num_threads)
                            {
                                return;
                            }
                        }

                        conduct_pruning_steps(all_canvas_layouts[j]);
"""),
(H,"""                [i, chunk_size, this, &conduct_pruning_steps]()
""","""                [i, chunk_size, num_threads, this, &conduct_pruning_steps, &mutex_to_protect_gate_candidates,
                 &gate_candidate]()
""")]
shim=True; harness=[]
flags="-O2 -pthread -DFICTION_ALGLIB_ENABLED=0"
run='''timeout 250 "$W/demo"'''

PRE=r'''
#include <fiction/algorithms/physical_design/design_sidb_gates.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/constructors.hpp>
#include <cstdio>
#include <set>
#include <string>
#include <tuple>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>>;
using cell_t = fiction::sidb_technology::cell_type;
static std::set<std::tuple<int,int,int>> cells(const lyt_t& l)
{
    std::set<std::tuple<int,int,int>> r;
    l.foreach_cell([&](const auto& c) { r.emplace((int)c.x, (int)c.y, (int)c.z); });
    return r;
}
static lyt_t skeleton(int gap)
{
    lyt_t l{};
    l.assign_cell_type({0, 0, 0}, cell_t::INPUT);  l.assign_cell_type({3, 0, 0}, cell_t::INPUT);
    l.assign_cell_type({6, 0, 0}, cell_t::NORMAL); l.assign_cell_type({8, 0, 0}, cell_t::NORMAL);
    l.assign_cell_type({8 + gap, 0, 0}, cell_t::OUTPUT); l.assign_cell_type({10 + gap, 0, 0}, cell_t::OUTPUT);
    l.assign_cell_type({14 + gap, 0, 0}, cell_t::NORMAL);
    return l;
}
using params_t = fiction::design_sidb_gates_params<fiction::cell<lyt_t>>;
'''

demo=PRE+r'''
// few hardware threads, so that the result does not depend on the machine
extern "C" int sched_getaffinity(int, size_t, cpu_set_t*);
unsigned std::thread::hardware_concurrency() noexcept { return 1; }
int main()
{
    int bad = 0, n = 0;
    for (int gap = 5; gap <= 10; ++gap)
    for (int k = 1; k <= 2; ++k)
    for (double mu : {-0.32, -0.28, -0.25})
    for (int inv = 0; inv < 2; ++inv)
    for (int kinks = 0; kinks < 2; ++kinks)
    {
        params_t ps{};
        ps.canvas = {{9, 0, 0}, {7 + gap, 1, 1}};
        ps.number_of_canvas_sidbs = k;
        ps.design_mode = params_t::design_sidb_gates_mode::QUICKCELL;
        ps.operational_params.simulation_parameters = fiction::sidb_simulation_parameters{2, mu, 5.6, 5.0};
        ps.operational_params.op_condition = kinks ? fiction::is_operational_params::operational_condition::TOLERATE_KINKS : fiction::is_operational_params::operational_condition::REJECT_KINKS;
        std::vector<kitty::dynamic_truth_table> spec(1, kitty::dynamic_truth_table(1));
        kitty::create_from_binary_string(spec[0], inv ? "01" : "10");
        const auto first = fiction::design_sidb_gates(skeleton(gap), spec, ps);
        ps.termination_cond = params_t::termination_condition::ALL_COMBINATIONS_ENUMERATED;
        const auto all = fiction::design_sidb_gates(skeleton(gap), spec, ps);
        n += !all.empty();
        bad += first.empty() != all.empty();
    }
    std::printf("%d of %d lost\n", bad, n);
    return bad != 0 || n == 0;
}
'''
