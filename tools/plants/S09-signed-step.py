id="S09-signed-step"; prop="S09"
needs="a grid step size that is not a power of two and a scanned area that reaches to negative coordinates"
breaks="the grid sweep tests divisibility of the converted unsigned value: with step 3, positions at negative coordinates are taken from the wrong columns and rows"
H="include/fiction/algorithms/simulation/sidb/defect_influence.hpp"
edits=[(H,"static_cast<std::size_t>(std::abs(all_possible_defect_positions[i].x)) % step_size","static_cast<std::size_t>(all_possible_defect_positions[i].x) % step_size"),
(H,"static_cast<std::size_t>(std::abs(all_possible_defect_positions[i].y)) % step_size","static_cast<std::size_t>(all_possible_defect_positions[i].y) % step_size")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=1"
PRE=r'''
#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
#include <set>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::cube::coord_t>>>>;
using cell_t = fiction::sidb_technology::cell_type;
using params_t = fiction::defect_influence_params<fiction::cell<lyt_t>>;
'''
demo=PRE+r'''
int main()
{
    lyt_t l{};
    l.assign_cell_type({0, 0}, cell_t::NORMAL);
    l.assign_cell_type({2, 0}, cell_t::NORMAL);
    params_t ps{};
    ps.defect = fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9};
    ps.influence_def = params_t::influence_definition::GROUND_STATE_CHANGE;
    ps.additional_scanning_area = {7, 5};
    for (int step = 1; step <= 4; ++step)
    {
        std::set<std::pair<int, int>> want, have;
        for (int y = -5; y <= 5; ++y) for (int x = -7; x <= 9; ++x) if (x % step == 0 && y % step == 0) want.emplace(x, y);
        fiction::defect_influence_grid_search(l, ps, step).for_each([&](const auto& c, const auto&) { have.emplace(c.x, c.y); });
        if (want != have) { std::printf("step %d: %zu positions, %zu expected\n", step, have.size(), want.size()); return 1; }
    }
    return 0;
}
'''
