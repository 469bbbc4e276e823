id="S13-no-degeneracy"; prop="S13"
needs="several excited states of the same energy (symmetric layouts) below the confidence threshold's temperature"
breaks="degenerate states are counted once: excited states seem less occupied than they are and the critical temperature is too high"
H="include/fiction/algorithms/simulation/sidb/energy_distribution.hpp"
edits=[(H,"""                // Add the layout and energy if it's unique
                if (is_unique)
                {
                    unique_energies.insert(energy);
                }

                unique_cds.push_back(lyt);

                break;
""","""                // Add the layout and energy if it's unique
                if (is_unique)
                {
                    unique_energies.insert(energy);
                    unique_cds.push_back(lyt);
                }

                break;
""")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"; libs="-lfmt -lpthread"; repeat=2
COMMON=r'''
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
using base_t = fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>;
using lyt_t  = fiction::sidb_lattice<fiction::sidb_100_lattice, base_t>;
using cell_t = fiction::sidb_technology::cell_type;
'''
demo=COMMON+r'''
int main()
{
    int compared = 0;
    for (const double mu : {-0.32, -0.28, -0.25, -0.2, -0.15})
    for (int gap = 3; gap < 12; ++gap)
    for (int n = 2; n < 10; ++n)
    {
        lyt_t l{};
        for (int i = 0; i < n; ++i) { l.assign_cell_type({(i % 3) * gap, (i / 3) * (gap / 2), 0}, cell_t::NORMAL); }
        fiction::critical_temperature_params ps{};
        ps.operational_params.simulation_parameters = fiction::sidb_simulation_parameters{2, mu};
        ps.operational_params.sim_engine            = fiction::sidb_simulation_engine::QUICKEXACT;
        ps.max_temperature                          = 600;
        ps.confidence_level                         = 0.999;
        const double got = fiction::critical_temperature_non_gate_based(l, ps);
        const auto   r   = fiction::quickexact(l, fiction::quickexact_params<fiction::cell<lyt_t>>{ps.operational_params.simulation_parameters, fiction::quickexact_params<fiction::cell<lyt_t>>::automatic_base_number_detection::OFF});
        double low = 1e300;
        for (const auto& c : r.charge_distributions) { low = std::min(low, c.get_electrostatic_potential_energy()); }
        double want = ps.max_temperature;
        for (int k = 1; k <= 60000; ++k)
        {
            double z = 0, u = 0;
            for (const auto& c : r.charge_distributions)
            {
                const double e = c.get_electrostatic_potential_energy() - low;
                const double b = std::exp(-e / (8.6173e-5 * k / 100));
                z += b;
                u += e > 1e-6 ? b : 0;
            }
            if (u / z > 0.001) { want = k / 100.0; break; }
        }
        compared += want < ps.max_temperature;
        if (std::fabs(got - want) > 0.03) { std::printf("%d SiDBs, distance %d: %g K instead of %g K\n", n, gap, got, want); return 1; }
    }
    std::printf("%d compared\n", compared);
    return compared > 0 ? 0 : 2;
}
'''
