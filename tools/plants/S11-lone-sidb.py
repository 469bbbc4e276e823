exec(open("/verif/tools/plants/S11-ordered-digest.py").read())
id="S11-lone-sidb"
needs="positive charges forbidden, and the first SiDB of a layout drawn right beside a charged defect"
breaks="the first SiDB of a layout is not checked for positive charges although a charged defect beside it can cause them: the layout returned violates the requirement"
H="include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp"
edits=[(H,"""                can_positive_charges_occur(lyt, params.simulation_parameters))
            {
                lyt.assign_cell_type""","""                lyt.num_cells() > 1 && can_positive_charges_occur(lyt, params.simulation_parameters))
            {
                lyt.assign_cell_type""")]
demo=PRE+r'''
int main()
{
    surf_t skel{};
    skel.assign_sidb_defect({4, 1, 0}, fiction::sidb_defect{fiction::sidb_defect_type::DB, -1, 4.1, 1.8});
    for (int k = 0; k < 200; ++k)
    {
        fiction::generate_random_sidb_layout_params<fiction::coordinate<surf_t>> ps{};
        ps.coordinate_pair = {{2, 0, 0}, {8, 2, 1}};
        ps.number_of_sidbs = 1;
        ps.positive_sidbs = fiction::generate_random_sidb_layout_params<fiction::coordinate<surf_t>>::positive_charges::FORBIDDEN;
        ps.simulation_parameters = fiction::sidb_simulation_parameters{3, -0.25, 5.6, 5.0};
        const auto r = fiction::generate_random_sidb_layout<surf_t>(ps, skel);
        if (r && fiction::can_positive_charges_occur(*r, ps.simulation_parameters)) { std::puts("positive"); return 1; }
    }
    return 0;
}
'''
