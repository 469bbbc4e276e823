exec(open("/verif/tools/plants/S09-signed-step.py").read())
id="S09-degenerate"
needs="a layout with several ground states of equal energy of which a defect leaves only some"
breaks="a defect that lifts the degeneracy of the ground state is reported as not influential: only the ground states with the defect are looked up among those without it"
edits=[(H,"            if (ground_states.size() != ground_states_defect.size())\n","            if (ground_states_defect.empty() != ground_states.empty())\n")]
demo=PRE+r'''
int main()
{
    // a lone pair: either of its SiDBs can hold the electron
    lyt_t l{};
    l.assign_cell_type({0, 0}, cell_t::NORMAL);
    l.assign_cell_type({2, 0}, cell_t::NORMAL);
    params_t ps{};
    ps.defect = fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9};
    ps.influence_def = params_t::influence_definition::GROUND_STATE_CHANGE;
    ps.additional_scanning_area = {6, 0};
    ps.operational_params.simulation_parameters.mu_minus = -0.28;
    ps.operational_params.simulation_parameters.base     = 2;
    int bad = 0;
    fiction::defect_influence_grid_search(l, ps, 1).for_each([&](const auto& c, const auto& v) {
        // a defect beside the pair breaks its symmetry
        if ((c.x == -6 || c.x == 8) && std::get<0>(v) != fiction::defect_influence_status::INFLUENTIAL) ++bad; });
    if (bad) { std::printf("%d positions beside the pair are reported as not influential\n", bad); return 1; }
    return 0;
}
'''
