id="E01-kept-state"; prop="E01"
needs="a sequence of aspect ratios in which two are extended from the same solver state, first by a row and then in another way"
breaks="a solver state stays in the tree after it was extended by a row: a later aspect ratio continues from constraints that belong to another one and is wrongly found infeasible"
H="include/fiction/algorithms/physical_design/exact.hpp"
edits=[(H,"""                // remove solver
                solver_tree.erase(it_y);

""","")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0 -DFICTION_Z3_SOLVER=1"; libs="-lfmt -lz3 -lpthread -ldl"; repeat=2
demo=r'''
#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/networks/technology_network.hpp>
#include <fiction/types.hpp>
#include <cstdio>
using net_t = fiction::technology_network;
int main()
{
    net_t n{};
    const auto a = n.create_pi();
    const auto b = n.create_pi();
    const auto c = n.create_gt(a, b);
    n.create_po(n.create_xnor(c, b));
    for (const char* s : {"RES", "2DDWAVE", "USE", "ESR"})
    for (const bool io : {true, false})
    {
        // the whole series of aspect ratios against the larger ones alone
        unsigned long best[2] = {0, 0};
        for (int k = 0; k < 2; ++k)
        {
            fiction::exact_physical_design_params ps{};
            ps.scheme = s; ps.crossings = false; ps.border_io = io; ps.upper_bound_area = 12;
            if (k == 0)
            {
                const auto l = fiction::exact<fiction::cart_gate_clk_lyt>(n, ps);
                best[0] = l ? (l->x() + 1) * (l->y() + 1) : 0;
                continue;
            }
            ps.fixed_size = true;
            for (uint16_t u = 1; u <= 12 && !best[1]; ++u)
            {
                ps.upper_bound_area = u;
                const auto l = fiction::exact<fiction::cart_gate_clk_lyt>(n, ps);
                best[1] = l ? (l->x() + 1) * (l->y() + 1) : 0;
            }
        }
        std::printf("%s %d: %lu %lu\n", s, io, best[0], best[1]);
        if (best[0] != best[1]) { return 1; }
    }
    return 0;
}
'''
