// P01: graph-oriented layout design: legal, correct, best-of-what-was-found layouts on any schedule and clock.
#include "net.hpp"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>

#include <atomic>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>

namespace
{
using lyt      = fiction::cart_gate_clk_lyt;
using params_t = fiction::graph_oriented_layout_design_params;
using effort_t   = params_t::effort_mode;
using cost_t   = params_t::cost_objective;

// collects what is printed while a design is running
struct tap : std::streambuf
{
    std::mutex  m;
    std::string s;
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        const std::scoped_lock l(m);
        s.append(p, static_cast<size_t>(n));
        return n;
    }
    int_type overflow(int_type c) override
    {
        const std::scoped_lock l(m);
        s.push_back(static_cast<char>(c));
        return c;
    }
};

struct job
{
    net::spec                          s;
    params_t                           ps{};
    bool                               custom_wires = false;
    std::atomic<int>                   calls{0};
    uint64_t                           slow = 0;

    static uint64_t ns_per_million_steps()
    {
        const auto   t0 = sim::now_ns(), s0 = sim::steps();
        volatile int x = 0;
        for (int i = 0; i < 200; ++i)
        {
            x = x + 1;
        }
        const auto ds = sim::steps() - s0;
        return ds ? (sim::now_ns() - t0) * 1'000'000 / ds : 1'000'000;
    }
    void draw(int pis, int gates)
    {
        s       = net::draw(pis, gates);
        ps.mode = sim::pick("mode", {effort_t::HIGH_EFFICIENCY, effort_t::HIGH_EFFICIENCY, effort_t::HIGH_EFFICIENCY, effort_t::HIGH_EFFORT, effort_t::HIGH_EFFORT, effort_t::HIGHEST_EFFORT, effort_t::MAXIMUM_EFFORT});
        ps.num_vertex_expansions = sim::pick<uint64_t>("expansions", {4, 3, 2, 6});
        ps.return_first          = sim::chance("first", 30);
        ps.planar                = sim::chance("planar", 15);
        ps.cost                  = sim::pick("cost", {cost_t::AREA, cost_t::WIRES, cost_t::CROSSINGS, cost_t::ACP, cost_t::CUSTOM});
        ps.enable_multithreading = sim::chance("threads", 75);
        ps.straight_inverters    = sim::chance("straight", 20);
        if (sim::chance("seeded", 60))
        {
            ps.seed = static_cast<uint32_t>(sim::choose("seed", 0, 5));
        }
        ps.tiles_to_skip_between_pis           = sim::pick<uint64_t>("skip", {0, 0, 0, 1, 2});
        ps.randomize_tiles_to_skip_between_pis = sim::chance("random-skip", 30);
        custom_wires                           = sim::chance("custom", 50);
        // the time for some rounds; more graphs take longer per round
        const auto steps = sim::pick<uint64_t>("effort", {0, 200'000, 2'000'000, 6'000'000, 12'000'000, 25'000'000});
        ps.timeout       = steps * ns_per_million_steps() / 1'000'000 / 1'000'000;
    }
    void say() const
    {
        sim::describe("%s %s; mode=%s expansions=%zu first=%d planar=%d cost=%s threads=%d straight=%d skip=%zu%s timeout=%zu", s.named ? "named" : "", s.text().c_str(), std::string(fiction::to_string(ps.mode)).c_str(), (size_t)ps.num_vertex_expansions,
                      ps.return_first, ps.planar, std::string(fiction::to_string(ps.cost)).c_str(), ps.enable_multithreading, ps.straight_inverters, (size_t)ps.tiles_to_skip_between_pis,
                      ps.randomize_tiles_to_skip_between_pis ? "?" : "", (size_t)ps.timeout);
    }
    uint64_t cost(const lyt& l) const
    {
        switch (ps.cost)
        {
            case cost_t::AREA: return (l.x() + 1) * (l.y() + 1);
            case cost_t::WIRES: return l.num_wires() - l.num_pis() - l.num_pos();
            case cost_t::CROSSINGS: return l.num_crossings();
            case cost_t::ACP: return (l.x() + 1) * (l.y() + 1) * (l.num_crossings() + 1);
            default: return custom_wires ? 7 + l.num_wires() : 2 * (l.x() + 1) + 2 * (l.y() + 1) + 3 * l.num_crossings();
        }
    }
    std::function<uint64_t(const lyt&)> custom()
    {
        if (ps.cost != cost_t::CUSTOM)
        {
            return nullptr;
        }
        return [this](const lyt& l)
        {
            calls.fetch_add(1, std::memory_order_relaxed);
            return cost(l);
        };
    }
    std::optional<lyt> run(fiction::graph_oriented_layout_design_stats& st)
    {
        auto n = s.build();
        return fiction::graph_oriented_layout_design<lyt>(n, ps, &st, custom());
    }
    void check(const std::optional<lyt>& l, const fiction::graph_oriented_layout_design_stats& st) const
    {
        if (!l)
        {
            sim::probe("no-layout");
            return;
        }
        sim::probe("layout");
        net::rules r{};
        r.planar             = ps.planar;
        r.straight_inverters = ps.straight_inverters;
        net::check(*l, s, r);
        SIM_CHECK(l->is_clocking_scheme(fiction::clock_name::TWODDWAVE), "scheme", "the layout is not clocked by 2DDWave");
        SIM_CHECK(st.x_size == l->x() + 1 && st.y_size == l->y() + 1 && st.num_gates == l->num_gates() && st.num_wires == l->num_wires() && st.num_crossings == l->num_crossings(), "statistics",
                  "the statistics report %zux%zu tiles, %zu gates, %zu wires and %zu crossings for a layout of %zux%zu with %zu, %zu and %zu", (size_t)st.x_size, (size_t)st.y_size, (size_t)st.num_gates, (size_t)st.num_wires,
                  (size_t)st.num_crossings, (size_t)l->x() + 1, (size_t)l->y() + 1, (size_t)l->num_gates(), (size_t)l->num_wires(), (size_t)l->num_crossings());
    }
};
// the costs of all layouts that were announced
std::vector<uint64_t> announced(const std::string& s, cost_t c)
{
    const char* const     tag = c == cost_t::AREA ? " = " : c == cost_t::WIRES ? "#Wires: " : c == cost_t::CROSSINGS ? "#Crossings: " : "ACP: ";
    std::vector<uint64_t> v;
    for (size_t p = s.find(tag); p != std::string::npos; p = s.find(tag, p + 1))
    {
        v.push_back(std::strtoull(s.c_str() + p + std::string(tag).size(), nullptr, 10));
    }
    return v;
}
}  // namespace

namespace
{
void design_and_check(job& j, bool listen)
{
    j.say();
    j.ps.verbose = listen;
    tap                                        t{};
    auto* const                                old = listen ? std::cout.rdbuf(&t) : nullptr;
    fiction::graph_oriented_layout_design_stats st{};
    const auto                                 l = j.run(st);
    if (listen)
    {
        std::cout.rdbuf(old);
    }
    const sim::quiet q;
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined", sim::threads_unjoined());
    j.check(l, st);
    if (listen)
    {
        const auto v = announced(t.s, j.ps.cost);
        SIM_CHECK(v.empty() == !l, "announced", "%zu layouts were announced as found, but %s was returned", v.size(), l ? "one" : "none");
        for (size_t i = 0; l && i < v.size(); ++i)
        {
            SIM_CHECK(j.cost(*l) <= v[i], "not-best", "a layout of cost %zu was found, but one of cost %zu is returned", (size_t)v[i], (size_t)j.cost(*l));
        }
        sim::probe(v.size() > 1 ? "several-found" : v.empty() ? "none-found" : "one-found");
    }
    if (j.ps.enable_multithreading)
    {
        sim::probe("parallel");
    }
    if (l)
    {
        sim::nontrivial();
        sim::note(net::picture(*l));
    }
}
}  // namespace

SIM_SCENARIO(design, 5)
{
    job j{};
    j.draw(3, 4);
    design_and_check(j, j.ps.cost != cost_t::CUSTOM && sim::chance("verbose", 60));
}
// many search space graphs that find layouts at the same time
SIM_SCENARIO(improve, 8)
{
    job j{};
    j.draw(2, 2);
    j.ps.mode                  = sim::pick("modes", {effort_t::HIGH_EFFORT, effort_t::HIGH_EFFORT, effort_t::HIGH_EFFORT, effort_t::HIGH_EFFORT, effort_t::HIGHEST_EFFORT});
    j.ps.cost                  = sim::pick("costs", {cost_t::AREA, cost_t::WIRES, cost_t::ACP});
    j.ps.enable_multithreading = true;
    j.ps.num_vertex_expansions = sim::pick<uint64_t>("few", {2, 1, 3});
    j.ps.return_first          = sim::chance("first", 10);
    j.ps.straight_inverters    = false;
    j.ps.timeout               = 10'000'000 * job::ns_per_million_steps() / 1'000'000 / 1'000'000;
    design_and_check(j, true);
}
// what is returned for a seed does not depend on what was designed before
SIM_SCENARIO(seeded, 2)
{
    job a{}, b{};
    a.draw(3, 3);
    a.ps.seed                  = 11;
    a.ps.return_first          = true;
    a.ps.enable_multithreading = false;
    a.ps.timeout               = std::numeric_limits<uint64_t>::max();
    sim::may_take_forever();
    sim::set_step_cap(6'000'000);
    b.draw(3, 2);
    a.say();
    fiction::graph_oriented_layout_design_stats st{};
    const auto                                 x = a.run(st);
    b.run(st);
    const auto       y = a.run(st);
    const sim::quiet q;
    a.check(y, st);
    SIM_CHECK(x.has_value() == y.has_value(), "not-reproducible", "the same design with the same seed %s", x ? "found no layout the second time" : "found a layout the second time only");
    if (x)
    {
        SIM_CHECK(net::picture(*x) == net::picture(*y), "not-reproducible", "the same design with the same seed gave another layout");
        sim::nontrivial();
        sim::probe("seeded");
    }
}
// worker threads find a layout whenever one thread alone does
SIM_SCENARIO(found, 2)
{
    job a{};
    a.draw(3, 3);
    a.ps.return_first                        = true;
    a.ps.randomize_tiles_to_skip_between_pis = false;
    a.ps.seed                                = 3;
    a.ps.timeout                             = std::numeric_limits<uint64_t>::max();
    sim::may_take_forever();
    sim::set_step_cap(6'000'000);
    a.ps.enable_multithreading               = false;
    a.say();
    fiction::graph_oriented_layout_design_stats st{};
    const auto                                 x = a.run(st);
    a.ps.enable_multithreading                   = true;
    const auto       y                           = a.run(st);
    const sim::quiet q;
    a.check(y, st);
    SIM_CHECK(x.has_value() == y.has_value(), "found", "a layout was %s by worker threads only", x ? "missed" : "found");
    sim::probe("parallel");
    if (x)
    {
        sim::nontrivial();
    }
}
// callers share nothing
SIM_SCENARIO(callers, 1)
{
    std::vector<job> js(2);
    for (auto& j : js)
    {
        j.draw(2, 2);
        j.ps.mode = effort_t::HIGH_EFFICIENCY;
    }
    js[0].say();
    js[1].say();
    std::vector<std::thread> ts;
    for (auto& j : js)
    {
        ts.emplace_back(
            [&j]
            {
                fiction::graph_oriented_layout_design_stats st{};
                const auto                                 l = j.run(st);
                const sim::quiet                           q;
                j.check(l, st);
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    sim::nontrivial();
    sim::probe("callers");
}
