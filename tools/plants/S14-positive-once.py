import os
exec(compile(open("/verif/tools/plants/S13-no-degeneracy.py").read().split("demo=COMMON")[0],"c","exec"))
id="S14-positive-once"; prop="S14"
needs="positive charges that can occur for some inputs, but not for the first one"
breaks="whether SiDBs may be positive is decided with the first input alone: a gate is simulated with two charge states and reported operational although SiDBs may be positive"
H="include/fiction/algorithms/simulation/sidb/is_operational.hpp"
edits=[(H,"""                const auto& lyt_with_input_pattern = layout_with_input_pattern(i);

                // if positively charged SiDBs can occur, the SiDB layout is considered non-operational
                if ((parameters.simulation_parameters.base == 2) &&
                    (can_positive""","""                const auto& lyt_with_input_pattern = layout_with_input_pattern(i);

                // if positively charged SiDBs can occur, the SiDB layout is considered non-operational. The input
                // patterns differ in their perturbers only, so the first one settles it
                if ((parameters.simulation_parameters.base == 2) && i == 0u &&
                    (can_positive""",),
 (H,"""        // if positively charged SiDBs can occur, the SiDB layout is considered non-operational
        if (parameters.simulation_parameters.base == 2 &&
            can_positive_charges_occur(given_cds, parameters.simulation_parameters))
        {
            return {operational_status::NON_OPERATIONAL, non_operationality_reason::POTENTIAL_POSITIVE_CHARGES};
        }

        assert(""","""        assert(""")]
COMMON=COMMON.replace("critical_temperature.hpp","is_operational.hpp")
demo=COMMON+r'''
int main()
{
    int positive = 0;
    for (int w = 2; w < 4; ++w)
    for (int gap = 3; gap < 7; ++gap)
    for (int end = 4; end < 8; ++end)
    for (const double mu : {-0.4, -0.36, -0.32, -0.28, -0.25, -0.2})
    for (const double eps : {4.8, 4.0, 3.5, 3.0, 2.5})
    for (const double lambda : {3.0, 5.0, 8.0})
    for (const auto enc : {fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED, fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED})
    {
        lyt_t l{};
        int   u = 0;
        for (const auto t : {cell_t::INPUT, cell_t::NORMAL, cell_t::OUTPUT})
        {
            l.assign_cell_type({u, 0, 0}, t);
            l.assign_cell_type({u + w, 0, 0}, t);
            u += w + gap;
        }
        l.assign_cell_type({u - gap + end, 0, 0}, cell_t::NORMAL);
        fiction::is_operational_params ps{};
        ps.simulation_parameters = fiction::sidb_simulation_parameters{2, mu, eps, lambda};
        ps.input_bdl_iterator_params.input_bdl_config = enc;
        if (fiction::detect_bdl_wires(l, ps.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT).size() != 1) { continue; }
        std::vector<kitty::dynamic_truth_table> s(1, kitty::dynamic_truth_table(1));
        const auto ls = fiction::generate_bdl_input_pattern_layouts(l, ps.input_bdl_iterator_params);
        if (ls.size() != 2 || fiction::can_positive_charges_occur(ls[0], ps.simulation_parameters) || !fiction::can_positive_charges_occur(ls[1], ps.simulation_parameters)) { continue; }
        ++positive;
        kitty::create_from_binary_string(s[0], "10");
        if (fiction::is_operational(l, s, ps).first == fiction::operational_status::OPERATIONAL)
        {
            std::printf("w %d gap %d end %d mu %g eps %g lambda %g: operational although SiDBs may be positive\n", w, gap, end, mu, eps, lambda);
            return 1;
        }
    }
    std::printf("%d gates\n", positive);
    return positive > 0 ? 0 : 3;
}
'''
