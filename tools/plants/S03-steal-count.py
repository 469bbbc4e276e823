id="S03-stolen-layer"; prop="S03"
needs="a thief that steals across two layers of a victim's queue"
breaks="a thief that moves on to the next layer applies only one informant, so its clustering state does not match the stolen work: wrong or missing charge distributions"
H="include/fiction/algorithms/simulation/sidb/clustercomplete.hpp"
edits=[(H,"""            while (!thief_informants.empty() && queue.back().empty())
            {
                queue.pop_back();

                apply_informant();
            }
""","""            if (queue.back().empty())
            {
                while (queue.size() > 1 && queue.back().empty())
                {
                    queue.pop_back();
                }

                apply_informant();
            }
""")]
shim=True
harness=["sidb_ref.hpp"]
flags="-O1 -DFICTION_ALGLIB_ENABLED=1 -pthread"
demo=r'''
#include <fiction/algorithms/simulation/sidb/clustercomplete.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdio>
#include <map>
#include <string>
using lyt_t = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::offset::ucoord_t>>>>;
template <typename R> std::map<std::string, int> keys(const R& r)
{
    std::map<std::string, int> m;
    for (const auto& c : r.charge_distributions)
    {
        std::string s;
        for (const auto x : c.get_all_sidb_charges()) s += x == fiction::sidb_charge_state::NEGATIVE ? '-' : x == fiction::sidb_charge_state::POSITIVE ? '+' : '0';
        ++m[s];
    }
    return m;
}
int main()
{
    lyt_t lyt{};
    for (int i = 0; i < 14; ++i) lyt.assign_cell_type({static_cast<unsigned>(i * 7 % 31), static_cast<unsigned>(i)}, fiction::sidb_technology::cell_type::NORMAL);
    fiction::clustercomplete_params<fiction::cell<lyt_t>> ps{};
    ps.simulation_parameters.base = 2;
    ps.available_threads = 1;
    const auto want = keys(fiction::clustercomplete(lyt, ps));
    ps.available_threads = 16;
    for (int k = 0; k < 60; ++k)
    {
        if (keys(fiction::clustercomplete(lyt, ps)) != want) { std::printf("run %d differs\n", k); return 1; }
    }
    std::printf("%zu\n", want.size());
    return 0;
}
'''
