id="S08-claim-twice"; prop="S08"
needs="two workers claiming the next combination at the same time, with all combinations requested"
breaks="workers claim combinations through an atomic counter that is read and written back in two steps: a combination is judged twice (a gate is returned twice) and another may be skipped by the counter going back"
H="include/fiction/algorithms/physical_design/design_sidb_gates.hpp"
edits=[(H,"""        const std::size_t chunk_size = (all_combinations.size() + num_threads - 1) / num_threads;  // Ceiling division

""","""        // operational candidates take longer than others, so hand the combinations out one at a time
        std::atomic<std::size_t> next_combination{0};

""",0),
(H,"""                [i, chunk_size, &all_combinations, &add_combination_to_layout_and_check_operation, &solution_found,
                 this]()
                {
                    const std::size_t start_index = i * chunk_size;
                    const std::size_t end_index   = std::min(start_index + chunk_size, all_combinations.size());

                    for (std::size_t j = start_index; j < end_index; ++j)
                    {
""","""                [&next_combination, &all_combinations, &add_combination_to_layout_and_check_operation, &solution_found,
                 this]()
                {
                    for (std::size_t j = next_combination; j < all_combinations.size(); j = next_combination)
                    {
                        next_combination = j + 1;

""")]
shim=True; harness=[]
flags="-O2 -pthread -DFICTION_ALGLIB_ENABLED=0"

PRE=r'''
#include <fiction/algorithms/physical_design/design_sidb_gates.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/constructors.hpp>
#include <cstdio>
#include <set>
#include <string>
#include <tuple>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>>;
using cell_t = fiction::sidb_technology::cell_type;
static std::set<std::tuple<int,int,int>> cells(const lyt_t& l)
{
    std::set<std::tuple<int,int,int>> r;
    l.foreach_cell([&](const auto& c) { r.emplace((int)c.x, (int)c.y, (int)c.z); });
    return r;
}
static lyt_t skeleton(int gap)
{
    lyt_t l{};
    l.assign_cell_type({0, 0, 0}, cell_t::INPUT);  l.assign_cell_type({3, 0, 0}, cell_t::INPUT);
    l.assign_cell_type({6, 0, 0}, cell_t::NORMAL); l.assign_cell_type({8, 0, 0}, cell_t::NORMAL);
    l.assign_cell_type({8 + gap, 0, 0}, cell_t::OUTPUT); l.assign_cell_type({10 + gap, 0, 0}, cell_t::OUTPUT);
    l.assign_cell_type({14 + gap, 0, 0}, cell_t::NORMAL);
    return l;
}
using params_t = fiction::design_sidb_gates_params<fiction::cell<lyt_t>>;
'''

demo=PRE+r'''
namespace demo
{
struct tt { uint64_t num_vars() const { return 1; } uint64_t num_bits() const { return 2; } };
template <typename Lyt>
std::pair<fiction::operational_status, std::size_t>
is_operational(const Lyt& l, const std::vector<tt>&, const fiction::is_operational_params&, const std::vector<fiction::bdl_wire<Lyt>>&, const std::vector<fiction::bdl_wire<Lyt>>&)
{
    return {fiction::operational_status::OPERATIONAL, 1};
}
inline uint64_t evaluate_output(const std::vector<tt>&, uint64_t) { return 0; }
inline bool get_bit(const tt&, uint64_t) { return false; }
}
namespace kitty { template <> struct is_truth_table<demo::tt> : std::true_type {}; }
int main()
{
    for (int k = 0; k < 12; ++k)
    {
        params_t ps{};
        ps.canvas = {{9, 1, 0}, {48, 2, 1}};
        ps.number_of_canvas_sidbs = 2;
        ps.termination_cond = params_t::termination_condition::ALL_COMBINATIONS_ENUMERATED;
        const auto r = fiction::design_sidb_gates(skeleton(5), std::vector<demo::tt>(1), ps);
        std::set<std::set<std::tuple<int,int,int>>> u;
        for (const auto& l : r) { u.insert(cells(l)); }
        if (r.size() != 160 * 159 / 2 || u.size() != r.size()) { std::printf("%zu gates, %zu different\n", r.size(), u.size()); return 1; }
    }
    return 0;
}
'''
