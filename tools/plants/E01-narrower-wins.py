id="E01-narrower-wins"; prop="E01"
needs="several threads; one finds a layout that is narrower or lower but has more tiles just after another has found the smallest one, too late to be interrupted"
breaks="layouts are compared by their dimensions instead of their number of tiles: the larger one is returned although the search was completed"
H="include/fiction/algorithms/physical_design/exact.hpp"
edits=[(H,"""                            if (area(*result_aspect_ratio) > area(ar))
                            {""","""                            if (ar.x < result_aspect_ratio->x || ar.y < result_aspect_ratio->y)
                            {""")]
shim=True; harness=[]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0 -DFICTION_Z3_SOLVER=1"; libs="-lfmt -lz3 -lpthread -ldl"; repeat=4
PRE=r'''
#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/networks/technology_network.hpp>
#include <fiction/types.hpp>
#include <dlfcn.h>
#include <chrono>
#include <cstdio>
#include <map>
#include <mutex>
#include <thread>
// the answers of the solver are held back for a while, differently for each thread
static std::mutex                m;
static std::map<Z3_context, int> order;
static int                       hold_sat[8], hold_unsat[8];
static bool                      on = false;
extern "C" Z3_lbool Z3_API Z3_solver_check_assumptions(Z3_context c, Z3_solver s, unsigned n, Z3_ast const* a)
{
    static const auto f = reinterpret_cast<decltype(&Z3_solver_check_assumptions)>(dlsym(RTLD_NEXT, "Z3_solver_check_assumptions"));
    const auto        r = f(c, s, n, a);
    if (on)
    {
        int ms = 0;
        {
            const std::scoped_lock l(m);
            const int              i = order[c] % 8;
            ms                       = r == Z3_L_TRUE ? hold_sat[i] : hold_unsat[i];
        }
        std::this_thread::sleep_for(std::chrono::milliseconds{ms});
    }
    return r;
}
extern "C" Z3_context Z3_API Z3_mk_context_rc(Z3_config k)
{
    static const auto f = reinterpret_cast<decltype(&Z3_mk_context_rc)>(dlsym(RTLD_NEXT, "Z3_mk_context_rc"));
    const auto        c = f(k);
    const std::scoped_lock l(m);
    order.erase(c);
    order.emplace(c, static_cast<int>(order.size()));
    return c;
}
using net_t = fiction::technology_network;
static net_t network(int k)
{
    net_t n{};
    const auto a = n.create_pi();
    const auto b = n.create_pi();
    if (k == 0) { n.create_po(n.create_and(a, b)); }
    if (k == 1) { n.create_po(n.create_and(n.create_not(a), b)); }
    if (k == 2) { n.create_po(n.create_not(n.create_and(n.create_not(a), b))); }
    if (k == 3) { const auto c = n.create_pi(); n.create_po(n.create_or(n.create_and(a, b), c)); }
    return n;
}
static unsigned long area(const net_t& n, unsigned threads, const char* scheme, unsigned limit)
{
    fiction::exact_physical_design_params ps{};
    ps.scheme = scheme; ps.crossings = true; ps.num_threads = threads; ps.upper_bound_area = limit;
    const auto l = fiction::exact<fiction::cart_gate_clk_lyt>(n, ps);
    return l ? static_cast<unsigned long>((l->x() + 1) * (l->y() + 1)) : 0ul;
}
'''
demo=PRE+r'''
int main()
{
    unsigned x = 1;
    const auto rnd = [&x](unsigned n) { x = x * 1103515245u + 12345u; return (x >> 16) % n; };
    const int some[] = {0, 12, 40};
    for (int p = 0; p < 60; ++p)
    {
        const char* scheme = p % 2 ? "2DDWAVE" : "RES";
        const auto  n      = network(p / 2 % 4);
        on                 = false;
        const auto best    = area(n, 1, scheme, 12);
        order.clear();
        for (int i = 0; i < 8; ++i) { hold_sat[i] = some[rnd(3)]; hold_unsat[i] = some[rnd(3)]; }
        on                 = true;
        const auto a       = area(n, 3, scheme, 12);
        if (a != best) { std::printf("trial %d: network %d on %s: %lu tiles instead of %lu\n", p, p / 2 % 4, scheme, a, best); return 1; }
    }
    return 0;
}
'''
