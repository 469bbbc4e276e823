id="S01-shared-scratch"; prop="S01"
needs="two threads interleaving inside the search loop"
breaks="the list of negatively charged SiDBs is shared by all search threads: states get mixed up (data race)"
H="include/fiction/algorithms/simulation/sidb/quicksim.hpp"
edits=[(H,"                            auto negative_sidbs_indices = predefined_negative_sidb_indices;\n","                            negative_sidbs_indices = predefined_negative_sidb_indices;\n"),
(H,"        std::mutex mutex{};  // used to control access to shared resources\n","        std::mutex mutex{};  // used to control access to shared resources\n\n        // reuse one buffer instead of allocating one per iteration\n        auto negative_sidbs_indices = predefined_negative_sidb_indices;\n        negative_sidbs_indices.reserve(charge_lyt.num_cells());\n")]
shim=True; harness=[]
flags="-O1 -g -fsanitize=thread -pthread"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 250 setarch -R "$W/demo" || exit 1'''
demo=r'''
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::offset::ucoord_t>>>>;
int main()
{
    lyt_t lyt{};
    for (int i = 0; i < 12; ++i) lyt.assign_cell_type({static_cast<unsigned>(i * 5 % 29), static_cast<unsigned>(i)}, fiction::sidb_technology::cell_type::NORMAL);
    fiction::quicksim_params ps{};
    ps.number_threads = 8; ps.iteration_steps = 80;
    for (int k = 0; k < 5; ++k)
    {
        auto r = fiction::quicksim(lyt, ps);
        if (!r) continue;
        for (auto& c : r->charge_distributions)
        {
            fiction::charge_distribution_surface<lyt_t> d{c};
            d.update_after_charge_change();
            if (!d.is_physically_valid()) { std::puts("invalid"); return 1; }
        }
    }
    return 0;
}
'''
