id="S05-lock-free-exit"; prop="S05"
needs="a flood fill worker that discovers nothing reports back while another worker sits between testing the wait predicate and going to sleep, or reads the queue while it is changed"
breaks="workers that discovered nothing skip the queue lock when they report back: data race on the queue and lost wake-up, the flood fill can hang or end early"
H="include/fiction/algorithms/simulation/sidb/operational_domain.hpp"
edits=[(H,"        std::size_t active_workers = 0;\n","        std::atomic<std::size_t> active_workers{0};\n"),
(H,"        bool finished = false;\n\n        // a utility function that gathers","        std::atomic<bool> finished{false};\n\n        // a utility function that gathers"),
(H,"                    lock.lock();\n\n                    schedule_points(discovered);\n","                    // nothing to schedule: no need to contend for the queue lock\n                    if (discovered.empty())\n                    {\n                        if (--active_workers == 0 && queue.empty())\n                        {\n                            finished = true;\n                            queue_cv.notify_all();\n                        }\n\n                        continue;\n                    }\n\n                    lock.lock();\n\n                    schedule_points(discovered);\n")]
shim=True; harness=[]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=1"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 120 setarch -R "$W/demo" || exit 1'''
PRE=r'''
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
#include <cmath>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::offset::ucoord_t>>>>;
// a specification whose evaluation at a parameter point is a function of the point alone
namespace demo
{
struct tt { uint64_t num_vars() const { return 1; } uint64_t num_bits() const { return 2; } };
bool op(const fiction::sidb_simulation_parameters& p);
template <typename Lyt>
std::pair<fiction::operational_status, std::size_t>
is_operational(const std::vector<Lyt>&, const std::vector<tt>&, const fiction::is_operational_params& ps, const std::vector<fiction::bdl_wire<Lyt>>&,
               const std::vector<fiction::bdl_wire<Lyt>>&, const std::optional<Lyt>&)
{
    return {op(ps.simulation_parameters) ? fiction::operational_status::OPERATIONAL : fiction::operational_status::NON_OPERATIONAL, 1};
}
}
namespace kitty { template <> struct is_truth_table<demo::tt> : std::true_type {}; }
static lyt_t gate()
{
    lyt_t l{};
    using t = fiction::sidb_technology::cell_type;
    l.assign_cell_type({0, 0}, t::INPUT);  l.assign_cell_type({3, 0}, t::INPUT);
    l.assign_cell_type({6, 0}, t::NORMAL); l.assign_cell_type({8, 0}, t::NORMAL);
    l.assign_cell_type({12, 0}, t::OUTPUT); l.assign_cell_type({14, 0}, t::OUTPUT);
    l.assign_cell_type({18, 0}, t::NORMAL);
    return l;
}
'''
demo=PRE+r'''
bool demo::op(const fiction::sidb_simulation_parameters& p) { return std::fabs(p.epsilon_r - 5) < 0.85; }
int main()
{
    for (int k = 0; k < 40; ++k)
    {
        fiction::operational_domain_params ps{};
        ps.sweep_dimensions = {{fiction::sweep_parameter::EPSILON_R, 4.0, 6.0, 0.1}, {fiction::sweep_parameter::LAMBDA_TF, 4.0, 6.0, 0.1}};
        ps.number_of_threads = 8;
        fiction::operational_domain_stats st{};
        auto d = fiction::operational_domain_flood_fill(gate(), std::vector<demo::tt>(1), 25, ps, &st);
        if (st.num_operational_parameter_combinations != 17 * 21) { std::printf("%zu\n", (size_t)st.num_operational_parameter_combinations); return 1; }
    }
    return 0;
}
'''
