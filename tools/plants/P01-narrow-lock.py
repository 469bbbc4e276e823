id="P01-narrow-lock"; prop="P01"
needs="two search space graphs that find a layout in the same round with multithreading enabled"
breaks="names are restored and statistics updated outside of the lock: data race on the best layout, statistics that do not belong to the layout returned"
H="include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp"
edits=[(H,"const std::scoped_lock lock(update_best_layout_mutex);","std::unique_lock lock(update_best_layout_mutex);"),
(H,"                                           best_lyt = std::move(*result);\n                                           restore_names","                                           best_lyt = std::move(*result);\n                                           lock.unlock();\n\n                                           restore_names")]
shim=True; harness=[]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=0"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 200 setarch -R "$W/demo" || exit 1'''
PRE=r'''
#include <fiction/types.hpp>
#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/networks/technology_network.hpp>
#include <cstdio>
using params_t = fiction::graph_oriented_layout_design_params;
using lyt_t = fiction::cart_gate_clk_lyt;
'''
demo=PRE+r'''
int main()
{
    for (int k = 0; k < 12; ++k)
    {
        fiction::tec_nt n{};
        const auto a = n.create_pi("a"), b = n.create_pi("b");
        n.create_po(n.create_and(a, b), "f");
        params_t ps{};
        ps.mode = params_t::effort_mode::HIGH_EFFORT;
        ps.enable_multithreading = true;
        ps.num_vertex_expansions = 2;
        ps.cost = k % 3 ? params_t::cost_objective::ACP : params_t::cost_objective::AREA;
        ps.timeout = 1000;
        fiction::graph_oriented_layout_design_stats st{};
        if (k > 3) ps.cost = params_t::cost_objective::CUSTOM;
        std::atomic<uint64_t> cost{1000000};
        const auto l = fiction::graph_oriented_layout_design<lyt_t>(n, ps, &st, [&](const auto&) { return --cost; });
        if (l && (st.x_size != l->x() + 1 || st.num_wires != l->num_wires())) return 1;
    }
    return 0;
}
'''
