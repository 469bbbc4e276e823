exec(open("/verif/tools/plants/S09-signed-step.py").read())
id="S09-plain-counters"
needs="two workers that judge defect positions at the same time"
breaks="the workers count evaluations in plain integers: data race, evaluations get lost from the statistics"
edits=[(H,"    std::atomic<std::size_t> num_simulator_invocations{0};","    std::size_t num_simulator_invocations{0};"),
(H,"    std::atomic<std::size_t> num_evaluated_defect_positions{0};","    std::size_t num_evaluated_defect_positions{0};"),
(H,"num_simulator_invocations.load()","num_simulator_invocations"),(H,"num_evaluated_defect_positions.load()","num_evaluated_defect_positions")]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=1"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 120 setarch -R "$W/demo" || exit 1'''
demo=PRE+r'''
int main()
{
    lyt_t l{};
    l.assign_cell_type({0, 0}, cell_t::NORMAL);
    l.assign_cell_type({2, 0}, cell_t::NORMAL);
    params_t ps{};
    ps.defect = fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9};
    ps.influence_def = params_t::influence_definition::GROUND_STATE_CHANGE;
    ps.additional_scanning_area = {6, 6};
    ps.number_of_threads = 4;
    fiction::defect_influence_stats st{};
    fiction::defect_influence_grid_search(l, ps, 1, &st);
    return st.num_evaluated_defect_positions == 15 * 13 ? 0 : 1;
}
'''
