id="S10-hoisted-fixed"; prop="S10"
needs="a fabrication error rate at which several choices of misplaced SiDBs are judged one after another"
breaks="the SiDBs are fixed once before the loop over the choices instead of once per choice: SiDBs released for one choice stay released, and the probability is computed over the wrong displacements"
H="include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp"
edits=[(H,"""        for (const auto& fixed_c_indices : all_combinations_of_fabricating_misplaced_sidbs)
        {
""","""        // all cells are fixed initially.
        params.fixed_sidbs.insert(sidbs_of_the_original_layout.cbegin(), sidbs_of_the_original_layout.cend());

        for (const auto& fixed_c_indices : all_combinations_of_fabricating_misplaced_sidbs)
        {
"""),(H,"""            // all cells are fixed initially.
            for (const auto& c : sidbs_of_the_original_layout)
            {
                params.fixed_sidbs.insert(c);
            }
""","")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
PRE=r'''
#include <fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
#include <cmath>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>>;
using cell_t = fiction::sidb_technology::cell_type;
using params_t = fiction::displacement_robustness_domain_params<fiction::cell<lyt_t>>;
// a specification whose operational status is a function of the layout alone
namespace demo
{
struct tt { uint64_t num_vars() const { return 1; } uint64_t num_bits() const { return 2; } };
bool op(const lyt_t& l);
template <typename Lyt>
std::pair<fiction::operational_status, std::size_t> is_operational(const Lyt& l, const std::vector<tt>&, const fiction::is_operational_params&)
{
    return {op(l) ? fiction::operational_status::OPERATIONAL : fiction::operational_status::NON_OPERATIONAL, 1};
}
}
namespace kitty { template <> struct is_truth_table<demo::tt> : std::true_type {}; }
'''
demo=PRE+r'''
// only one SiDB may be off its place
bool demo::op(const lyt_t& l) { int off = 0; for (int x : {0, 10, 20, 30}) off += l.is_empty_cell({x, 0, 0}); return off <= 1; }
int main()
{
    lyt_t l{};
    for (int x : {0, 10, 20, 30}) l.assign_cell_type({x, 0, 0}, cell_t::NORMAL);
    params_t ps{};
    ps.displacement_variations = {1, 0};
    const double p = fiction::determine_probability_of_fabricating_operational_gate(l, std::vector<demo::tt>(1), ps, 0.25);
    std::printf("%g\n", p);
    return std::fabs(p - 1.0) < 1e-9 ? 0 : 1;
}
'''
