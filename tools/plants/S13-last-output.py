import os
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/plants","S13-no-degeneracy.py")).read().split("demo=COMMON")[0],"c","exec"))
id="S13-last-output"; prop="S13"
needs="a gate with several outputs and an excited state in which only an output other than the last one is wrong"
breaks="a state counts as correct if the last output is, whatever the others are: the critical temperature of multi-output gates is too high"
H="include/fiction/algorithms/simulation/sidb/calculate_energy_and_state_type.hpp"
edits=[(H,"""                        if (static_cast<bool>(-charge_state_to_sign(valid_layout.get_charge_state(
                                output_bdl_pairs[i].lower))) != kitty::get_bit(spec[i], input_index))
                        {
                            // The output SiDB matches the truth table entry. Hence, the state is called transparent.
                            type_of_considered_state = state_type::REJECTED;
                            break;
                        }
""","""                        const auto output_is_one =
                            valid_layout.get_charge_state(output_bdl_pairs[i].lower) != sidb_charge_state::NEUTRAL;

                        // The output SiDB matches the truth table entry. Hence, the state is called transparent.
                        type_of_considered_state = output_is_one == kitty::get_bit(spec[i], input_index) ?
                                                       state_type::ACCEPTED :
                                                       state_type::REJECTED;
""")]
demo=COMMON+r'''
int main()
{
    int limited = 0;
    for (int a = 0; a < 3; ++a)
    for (int b = -1; b < 2; ++b)
    for (int rows = 3; rows < 8; ++rows)
    {
        lyt_t l{};
        for (int w = 0; w < 2; ++w)
        {
            const int r = w * rows;
            l.assign_cell_type({0, r, 0}, cell_t::INPUT);
            l.assign_cell_type({3, r, 0}, cell_t::INPUT);
            l.assign_cell_type({6 + w * a, r, 0}, cell_t::NORMAL);
            l.assign_cell_type({8 + w * a, r, 0}, cell_t::NORMAL);
            l.assign_cell_type({12 + w * (a + b), r, 0}, cell_t::OUTPUT);
            l.assign_cell_type({14 + w * (a + b), r, 0}, cell_t::OUTPUT);
            l.assign_cell_type({18 + w * (a + b), r, 0}, cell_t::NORMAL);
        }
        fiction::critical_temperature_params ps{};
        auto& op                 = ps.operational_params;
        op.simulation_parameters = fiction::sidb_simulation_parameters{2, -0.32};
        op.sim_engine            = fiction::sidb_simulation_engine::QUICKEXACT;
        ps.max_temperature       = 400;
        ps.confidence_level      = 0.999;
        const auto ls = fiction::generate_bdl_input_pattern_layouts(l, op.input_bdl_iterator_params);
        auto       o  = fiction::detect_bdl_pairs(l, cell_t::OUTPUT, op.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params);
        const auto iw = fiction::detect_bdl_wires(l, op.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::INPUT);
        const auto ow = fiction::detect_bdl_wires(l, op.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT);
        if (o.size() != 2 || ls.size() != 4) { continue; }
        std::vector<kitty::dynamic_truth_table> s(2, kitty::dynamic_truth_table(2));
        for (const bool swap : {false, true})
        {
            kitty::create_from_binary_string(s[0], swap ? "1100" : "1010");
            kitty::create_from_binary_string(s[1], swap ? "1010" : "1100");
            // the same gate with its outputs listed in either order
            const double p = fiction::critical_temperature_gate_based(ls, s, ps, o, iw, ow);
            const double q = fiction::critical_temperature_gate_based(ls, decltype(s){s[1], s[0]}, ps, {o[1], o[0]}, iw, ow);
            limited += p > 0 && p < 400;
            if (p != q) { std::printf("%g K and %g K\n", p, q); return 1; }
        }
    }
    std::printf("%d limited\n", limited);
    return limited > 0 ? 0 : 2;
}
'''
