import os
exec(compile(open("/verif/tools/plants/S13-no-degeneracy.py").read().split("demo=COMMON")[0],"c","exec"))
id="S14-first-ground-state"; prop="S14"
needs="degenerate ground states of which only some encode the expected output"
breaks="only one of the degenerate ground states is compared with the truth table: a gate whose output is undecided is reported operational"
H="include/fiction/algorithms/simulation/sidb/is_operational.hpp"
edits=[(H,"""                    const auto [op_status, non_op_reason] = verify_logic_match_of_cds(gs, i);
                    if (op_status == operational_status::NON_OPERATIONAL &&
                        non_op_reason == non_operationality_reason::LOGIC_MISMATCH)
                    {
                        return {operational_status::NON_OPERATIONAL, non_operationality_reason::LOGIC_MISMATCH};
                    }
""","""                    const auto [op_status, non_op_reason] = verify_logic_match_of_cds(gs, i);
                    if (op_status == operational_status::OPERATIONAL)
                    {
                        // the ground state encodes the expected output
                        break;
                    }
                    if (op_status == operational_status::NON_OPERATIONAL &&
                        non_op_reason == non_operationality_reason::LOGIC_MISMATCH)
                    {
                        return {operational_status::NON_OPERATIONAL, non_operationality_reason::LOGIC_MISMATCH};
                    }
""")]
COMMON=COMMON.replace("critical_temperature.hpp","is_operational.hpp")
demo=COMMON+r'''
int main()
{
    int undecided = 0;
    for (int gap = 4; gap < 8; ++gap)
    for (const double mu : {-0.32, -0.28, -0.25})
    {
        // without a perturber, nothing decides which dot of the output pair is negative
        lyt_t l{};
        l.assign_cell_type({0, 0, 0}, cell_t::INPUT);
        l.assign_cell_type({3, 0, 0}, cell_t::INPUT);
        l.assign_cell_type({3 + gap, 0, 0}, cell_t::OUTPUT);
        l.assign_cell_type({5 + gap, 0, 0}, cell_t::OUTPUT);
        fiction::is_operational_params ps{};
        ps.simulation_parameters = fiction::sidb_simulation_parameters{2, mu};
        ps.input_bdl_iterator_params.input_bdl_config = fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
        int n = 0;
        for (const char* first : {"00", "01", "10", "11"})
        {
            std::vector<kitty::dynamic_truth_table> s(1, kitty::dynamic_truth_table(1));
            kitty::create_from_binary_string(s[0], first);
            n += fiction::is_operational(l, s, ps).first == fiction::operational_status::OPERATIONAL ? 1 : 0;
        }
        std::printf("gap %d mu %g: %d functions\n", gap, mu, n);
        if (n > 0) { return 1; }
        ++undecided;
    }
    return undecided > 0 ? 0 : 3;
}
'''
