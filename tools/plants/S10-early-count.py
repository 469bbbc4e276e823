exec(open("/verif/tools/plants/S10-hoisted-fixed.py").read())
id="S10-early-count"
needs="two workers that finish judging a displaced layout at the same time"
breaks="workers count the outcome before they take the lock: data race on the counters, layouts get lost from the statistics and from the fabrication probability"
edits=[(H,"""            const auto op_status = is_operational(lyt, truth_table, params.operational_params);
            {
""","""            const auto op_status = is_operational(lyt, truth_table, params.operational_params);

            // keep the critical section short
            if (op_status.first == operational_status::OPERATIONAL)
            {
                stats.num_operational_sidb_displacements++;
            }
            else
            {
                stats.num_non_operational_sidb_displacements++;
            }
            {
"""),(H,"""        domain.operational_values.emplace_back(lyt, status);

        if (status == operational_status::OPERATIONAL)
        {
            stats.num_operational_sidb_displacements++;
        }
        else
        {
            stats.num_non_operational_sidb_displacements++;
        }
""","""        domain.operational_values.emplace_back(lyt, status);
""")]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=0"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 120 setarch -R "$W/demo" || exit 1'''
demo=PRE+r'''
bool demo::op(const lyt_t& l) { return l.num_cells() == 4; }
int main()
{
    lyt_t l{};
    for (int x : {0, 10, 20, 30}) l.assign_cell_type({x, 0, 0}, cell_t::NORMAL);
    params_t ps{};
    ps.displacement_variations = {1, 0};
    ps.number_of_threads = 4;
    fiction::displacement_robustness_domain_stats st{};
    fiction::determine_displacement_robustness_domain(l, std::vector<demo::tt>(1), ps, &st);
    return st.num_operational_sidb_displacements == 81 ? 0 : 1;
}
'''
