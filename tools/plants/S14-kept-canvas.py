import os
exec(compile(open("/verif/tools/plants/S13-no-degeneracy.py").read().split("demo=COMMON")[0],"c","exec"))
id="S14-kept-canvas"; prop="S14"
needs="two gates with different canvases that are filtered in one process, one after the other or at the same time"
breaks="the enumerated canvas is kept across evaluations: the filters judge a gate by the canvas of the one evaluated first and discard operational gates; concurrent evaluations overwrite each other's canvas"
H="include/fiction/algorithms/simulation/sidb/is_operational.hpp"
edits=[(H,"""    std::optional<charge_distribution_surface<Lyt>> canvas_cds{};""","""    inline static std::optional<charge_distribution_surface<Lyt>> canvas_cds{};"""),
(H,"""        if (!canvas_cds.has_value())
        {""","""        if (!canvas_cds.has_value() || canvas_cds->num_cells() != canvas_lyt.num_cells())
        {""")]
COMMON=COMMON.replace("critical_temperature.hpp","is_operational.hpp")
demo=COMMON+r'''
using P = fiction::is_operational_params;
int main()
{
    int good = 0;
    const auto gate = [](int row, int shift)
    {
        lyt_t     l{};
        int       u = 0;
        const int w = 3, gap = 5;
        for (const auto t : {cell_t::INPUT, cell_t::NORMAL, cell_t::LOGIC, cell_t::OUTPUT})
        {
            l.assign_cell_type({u, row, 0}, t);
            l.assign_cell_type({u + w, row, 0}, t);
            u += w + gap;
        }
        l.assign_cell_type({u - gap + 6 + shift, row, 0}, cell_t::NORMAL);
        return l;
    };
    std::vector<kitty::dynamic_truth_table> s(1, kitty::dynamic_truth_table(1));
    kitty::create_from_binary_string(s[0], "10");
    for (int shift = 0; shift < 2; ++shift)
    for (const double mu : {-0.32, -0.28, -0.25})
    for (int row = 0; row < 4; ++row)
    {
        P ps{};
        ps.simulation_parameters = fiction::sidb_simulation_parameters{2, mu};
        ps.op_condition          = P::operational_condition::REJECT_KINKS;
        const auto l = gate(row, shift);
        const bool plain = fiction::is_operational(l, s, ps).first == fiction::operational_status::OPERATIONAL;
        good += plain ? 1 : 0;
        ps.strategy_to_analyze_operational_status = P::operational_analysis_strategy::FILTER_THEN_SIMULATION;
        const bool filtered = fiction::is_operational(l, s, ps).first == fiction::operational_status::OPERATIONAL;
        if (plain != filtered)
        {
            std::printf("row %d shift %d mu %g: %s, with filters %s\n", row, shift, mu, plain ? "operational" : "non-operational", filtered ? "operational" : "non-operational");
            return 1;
        }
    }
    std::printf("%d operational gates\n", good);
    return good > 0 ? 0 : 3;
}
'''
