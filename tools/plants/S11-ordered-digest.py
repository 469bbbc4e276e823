id="S11-ordered-digest"; prop="S11"
needs="the same set of SiDBs drawn twice in different orders"
breaks="the digest that preselects duplicates depends on the order in which the cells were placed: the same layout is returned twice"
H="include/fiction/utils/layout_utils.hpp"
edits=[(H,"            hash_combine_unordered(cell_fold, cell_hash);","            hash_combine(cell_fold, cell_hash);")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
PRE=r'''
#include <fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
#include <set>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>>;
using surf_t = fiction::sidb_defect_surface<lyt_t>;
using cell_t = fiction::sidb_technology::cell_type;
'''
demo=PRE+r'''
int main()
{
    for (int k = 0; k < 20; ++k)
    {
        fiction::generate_random_sidb_layout_params<fiction::coordinate<lyt_t>> ps{};
        ps.coordinate_pair = {{0, 0, 0}, {9, 0, 1}};
        ps.number_of_sidbs = 3;
        ps.number_of_unique_generated_layouts = 400;
        const auto r = fiction::generate_multiple_random_sidb_layouts<lyt_t>(ps);
        std::set<std::set<std::pair<int, int>>> u;
        for (const auto& l : *r) { std::set<std::pair<int, int>> s; l.foreach_cell([&](const auto& c) { s.emplace(c.x, c.z); }); u.insert(s); }
        if (u.size() != r->size()) { std::printf("%zu layouts, %zu different\n", r->size(), u.size()); return 1; }
    }
    return 0;
}
'''
