// P02: layouts stay legal, correct and no larger when they are optimized, however early the time is up.
#include "net.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>

#include <thread>

namespace
{
using lyt = fiction::cart_gate_clk_lyt;

struct job
{
    net::spec                                s;
    fiction::post_layout_optimization_params ps{};
    fiction::wiring_reduction_params         wr{};
    bool                                     only_wires = false, limited = false, shared = false;

    void draw(int pis, int gates)
    {
        s          = net::draw(pis, gates);
        only_wires = sim::chance("only-wires", 30);
        if (sim::chance("relocations", 50))
        {
            ps.max_gate_relocations = sim::pick<uint64_t>("max", {0, 1, 2, 3, 5, 9});
        }
        ps.optimize_pos_only   = sim::chance("pos-only", 10);
        ps.planar_optimization = sim::chance("planar", 25);
        limited                = sim::chance("timeout", 60);
        if (limited)
        {
            // a thousand steps take a millisecond
            ps.timeout = wr.timeout = static_cast<uint64_t>(sim::choose("time", 0, only_wires ? 20 : 99));
            sim::set_ns_per_step(1000);
        }
    }
    void say(const lyt& l) const
    {
        sim::describe("%s %s; %dx%d %s relocations=%d pos-only=%d planar=%d timeout=%lld", s.named ? "named" : "", s.text().c_str(), (int)l.x() + 1, (int)l.y() + 1, only_wires ? "wires" : "gates",
                      ps.max_gate_relocations ? (int)*ps.max_gate_relocations : -1, ps.optimize_pos_only, ps.planar_optimization, limited ? (long long)ps.timeout : -1LL);
    }
};
size_t segments(const lyt& l)
{
    return l.num_wires() - l.num_pis() - l.num_pos();
}
struct before
{
    size_t x, y, wires, crossings, gates, fans;
    explicit before(const lyt& l) : x{l.x() + 1}, y{l.y() + 1}, wires{segments(l)}, crossings{l.num_crossings()}, gates{l.num_gates()}, fans{fanouts(l)} {}
    static size_t fanouts(const lyt& l)
    {
        size_t n = 0;
        l.foreach_node([&](const auto& v) { n += l.is_fanout(v) ? 1 : 0; });
        return n;
    }
};
void optimize_and_check(const job& j, const lyt& l)
{
    const before b{l};
    const auto   s0 = sim::steps();
    fiction::post_layout_optimization_stats p{};
    fiction::wiring_reduction_stats         w{};
    if (j.only_wires)
    {
        fiction::wiring_reduction(l, j.wr, &w);
    }
    else
    {
        fiction::post_layout_optimization(l, j.ps, &p);
    }
    const auto       used = sim::steps() - s0;
    const sim::quiet q;
    net::rules r{};
    r.border = false;
    net::check(l, j.s, r);
    l.foreach_pi([&](const auto& n) { SIM_CHECK(l.get_tile(n).x == 0 || l.get_tile(n).y == 0, "input-inside", "the input on %s is not at the border", net::where<lyt>(l.get_tile(n)).c_str()); });
    if (j.limited && !j.shared)
    {
        // one look for a new position or one cut through the layout may be under way
        const uint64_t allowed = (j.ps.timeout + 1) * 1000 + 12'000 + 2'400 * b.x * b.y;
        SIM_CHECK(used <= allowed, "overtime", "the optimization went on for %zu steps of computing time, with a timeout after %zu (%zux%zu tiles)", (size_t)used, (size_t)j.ps.timeout * 1000, b.x, b.y);
    }
    const before a{l};
    SIM_CHECK(a.x * a.y <= b.x * b.y, "larger", "the layout grew from %zux%zu to %zux%zu", b.x, b.y, a.x, a.y);
    SIM_CHECK(a.gates == b.gates && a.fans == b.fans, "gates-changed", "the layout has %zu gates and %zu fan-outs instead of %zu and %zu", a.gates, a.fans, b.gates, b.fans);
    SIM_CHECK(l.is_clocking_scheme(fiction::clock_name::TWODDWAVE), "scheme", "the layout is not clocked by 2DDWave");
    const double area = 100.0 * (1.0 - static_cast<double>(a.x * a.y) / static_cast<double>(b.x * b.y));
    SIM_CHECK(!(j.only_wires || j.ps.planar_optimization) || a.crossings <= b.crossings, "crossings-made", "there are %zu crossings instead of %zu", a.crossings, b.crossings);
    if (j.only_wires)
    {
        SIM_CHECK(a.wires <= b.wires, "more-wires", "wiring reduction made %zu wire segments out of %zu", a.wires, b.wires);
        SIM_CHECK(w.x_size_before == b.x && w.y_size_before == b.y && w.x_size_after == a.x && w.y_size_after == a.y && w.num_wires_before == b.wires && w.num_wires_after == a.wires, "statistics",
                  "%zux%zu with %zu wires became %zux%zu with %zu; the statistics say %zux%zu with %zu and %zux%zu with %zu", b.x, b.y, b.wires, a.x, a.y, a.wires, (size_t)w.x_size_before, (size_t)w.y_size_before,
                  (size_t)w.num_wires_before, (size_t)w.x_size_after, (size_t)w.y_size_after, (size_t)w.num_wires_after);
        SIM_CHECK(std::abs(w.area_improvement - area) < 0.0051, "statistics", "the area shrank by %f%%, not %f%%", area, w.area_improvement);
    }
    else
    {
        SIM_CHECK(p.x_size_before == b.x && p.y_size_before == b.y && p.x_size_after == a.x && p.y_size_after == a.y && p.num_wires_before == b.wires && p.num_wires_after == a.wires && p.num_crossings_before == b.crossings &&
                      p.num_crossings_after == a.crossings,
                  "statistics", "%zux%zu with %zu wires, %zu crossings became %zux%zu with %zu, %zu; the statistics say %zux%zu with %zu, %zu and %zux%zu with %zu, %zu", b.x, b.y, b.wires, b.crossings, a.x, a.y, a.wires,
                  a.crossings, (size_t)p.x_size_before, (size_t)p.y_size_before, (size_t)p.num_wires_before, (size_t)p.num_crossings_before, (size_t)p.x_size_after, (size_t)p.y_size_after, (size_t)p.num_wires_after,
                  (size_t)p.num_crossings_after);
        SIM_CHECK(std::abs(p.area_improvement - area) < 0.0051, "statistics", "the area shrank by %f%%, not %f%%", area, p.area_improvement);
    }
    sim::probe(a.x * a.y < b.x * b.y ? "smaller" : "same-area");
    sim::nontrivial();
    sim::note(net::picture(l));
}
lyt place(const job& j)
{
    sim::describe("%s", j.s.text().c_str());
    const auto       n = j.s.build();
    const sim::quiet q;
    auto             l = fiction::orthogonal<lyt>(n);
    // the placement has to be legal to begin with: orthogonal() lets an output wire run over a gate now and then
    bool legal = true;
    l.foreach_node(
        [&](const auto& n)
        {
            if (const auto t = l.get_tile(n); !l.is_constant(n) && t.z > 0)
            {
                const auto b = l.get_node(fiction::tile<lyt>{t.x, t.y, 0});
                legal &= !l.is_po(n) && !l.is_pi(n) && l.is_wire(n) && l.is_wire(b) && !l.is_pi(b) && !l.is_po(b) && !l.is_fanout(b) && !l.is_fanout(n);
            }
        });
    if (!legal)
    {
        sim::discard("illegal placement");
    }
    net::check(l, j.s, net::rules{});
    return l;
}
}  // namespace

SIM_SCENARIO(optimize, 10)
{
    job j{};
    j.draw(4, sim::chance("many", 40) ? 9 : 6);
    const auto l = place(j);
    j.say(l);
    optimize_and_check(j, l);
    if (sim::chance("again", 20))
    {
        j.only_wires = !j.only_wires;
        optimize_and_check(j, l);
        sim::probe("again");
    }
}
SIM_SCENARIO(callers, 2)
{
    std::vector<job> js(2);
    for (auto& j : js)
    {
        j.draw(3, 3);
        j.shared = true;
    }
    std::vector<lyt> ls{place(js[0]), place(js[1])};
    js[0].say(ls[0]);
    js[1].say(ls[1]);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < 2; ++i)
    {
        ts.emplace_back([&, i] { optimize_and_check(js[i], ls[i]); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    sim::probe("callers");
}
