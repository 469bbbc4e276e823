id="P02-no-way-back"; prop="P02"
needs="a timeout that expires while new positions of a gate are being tried"
breaks="when the time is up, a gate that found no better position keeps the place of the last attempt and its wires are not restored: the layout no longer computes the network"
H="include/fiction/algorithms/physical_design/post_layout_optimization.hpp"
edits=[(H,"        if (!moved_gate)\n        {\n            restore","        if (!moved_gate && !timeout_limit_reached)\n        {\n            restore")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
PRE=r'''
#include <fiction/types.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>
#include <fiction/networks/technology_network.hpp>
#include <cstdio>
#include <ctime>
#include <thread>
using lyt_t = fiction::cart_gate_clk_lyt;
lyt_t make(int k)
{
    fiction::tec_nt n{};
    const auto a = n.create_pi("a"), b = n.create_pi("b"), c = n.create_pi("c");
    const auto x = n.create_and(a, b), y = n.create_xor(x, c), z = n.create_or(k % 2 ? y : x, a), u = n.create_nand(z, k % 3 ? c : b), v = n.create_not(y);
    n.create_po(u, "f");
    n.create_po(v, "g");
    if (k % 5 == 0) n.create_po(n.create_nor(u, y), "h");
    return fiction::orthogonal<lyt_t>(n);
}
bool sound(const lyt_t& l)
{
    bool ok = true;
    l.foreach_node([&](const auto& n) {
        if (l.is_constant(n) || l.is_pi(n)) return;
        int in = 0;
        l.foreach_fanin(n, [&](const auto&) { ++in; });
        ok &= in == static_cast<int>(l.node_function(n).num_vars());
    });
    return ok;
}
'''
demo=PRE+r'''
// a clock that ticks a millisecond whenever it is read
static long ticks = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* t)
{
    ++ticks;
    t->tv_sec  = ticks / 1000;
    t->tv_nsec = ticks % 1000 * 1000000;
    return 0;
}
int main()
{
    for (int k = 0; k < 6; ++k)
    {
        for (uint64_t t = 1; t < 150; t += 3)
        {
            const auto l = make(k);
            fiction::post_layout_optimization_params ps{};
            ps.timeout = t;
            fiction::post_layout_optimization(l, ps);
            if (!sound(l)) { std::printf("broken after %d ms\n", (int)t); return 1; }
        }
    }
    return 0;
}
'''
