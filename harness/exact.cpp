// E01: SMT-based exact physical design: whatever the number and schedule of its threads, the durations of the solver's checks,
// interrupts, deadlines and solver failures, it returns what the sequential search finds, or nothing for a reason.
// The solver is the real Z3 (not instrumented); how long its checks take, and that they end early, is decided here.
#include "net.hpp"

#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>

#include <chrono>
#include <dlfcn.h>
#include <map>
#include <optional>
#include <thread>

namespace solver
{
struct checking
{
    bool interrupted = false;
};
struct world
{
    bool                             on = false;        // durations and failures are simulated
    int                              regime = 0;        // 0: immediate, 1: ms, 2: widely varying, 3: some checks never end by themselves
    bool                             memout = false;    // the solver may run out of memory
    std::map<Z3_params, unsigned>    params{};          // time limits
    std::map<Z3_solver, unsigned>    limit{};
    std::map<Z3_optimize, unsigned>  opt_limit{};
    std::map<Z3_context, checking*>  active{};
    std::map<Z3_context, Z3_error_code> failed{};
    std::map<Z3_context, bool>       cancelled{};       // interrupted between checks: stays so
    uint64_t                         deadline = ~0ull;  // of the call
    int64_t                          over = 0;  // ns that checks go on for after it
    size_t                           checks = 0, undecided = 0, interrupts = 0, lost_interrupts = 0, memouts = 0;
};
inline world& w()
{
    static world x;
    return x;
}
template <typename F>
F real(F, const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
// lets simulated time pass until the check has an answer; false: it has none
bool wait(Z3_context c, std::optional<unsigned> limit)
{
    if (!w().on)
    {
        return true;
    }
    checking me{};
    int64_t  ms = 0, left = 0;
    {
        const sim::quiet q;
        ++w().checks;
        const auto r = w().regime;
        ms           = r == 0 ? 0 : r == 1 ? sim::choose("solve", 0, 8) : sim::pick<int64_t>("solve", {0, 1, 5, 50, 400, 3000});
        if (r == 3 && sim::chance("forever", 25))
        {
            ms = int64_t{1} << 40;
        }
        left          = limit && ms > *limit ? *limit : ms;
        w().active[c] = &me;
        const auto t  = sim::now_ns();
        w().over      = std::max(w().over, static_cast<int64_t>(t) + left * 1'000'000 - static_cast<int64_t>(std::max(t, std::min(w().deadline, uint64_t{1} << 62))));
    }
    bool answer = true;
    while (left > 0)
    {
        const auto slice = std::max<int64_t>(1, left / 6);
        std::this_thread::sleep_for(std::chrono::milliseconds{slice});
        left -= slice;
        const sim::quiet q;
        if (me.interrupted)
        {
            break;
        }
    }
    const sim::quiet q;
    w().active.erase(c);
    if (me.interrupted || w().cancelled.count(c))
    {
        answer = false;
        ++w().undecided;
        if (sim::chance("cancelled", 70))
        {
            w().failed[c] = Z3_EXCEPTION;
        }
    }
    else if (me.interrupted || (limit && ms > *limit))
    {
        answer = false;
        ++w().undecided;
    }
    else if (w().memout && sim::fault("solver-memout", 150))
    {
        answer        = false;
        w().failed[c] = Z3_MEMOUT_FAIL;
        ++w().memouts;
    }
    return answer;
}
}  // namespace solver

extern "C"
{
void Z3_API Z3_params_set_uint(Z3_context c, Z3_params p, Z3_symbol k, unsigned v)
{
    const sim::quiet q;
    if (std::string(Z3_get_symbol_string(c, k)) == "timeout")
    {
        solver::w().params[p] = v;
        return;
    }
    solver::real(&Z3_params_set_uint, "Z3_params_set_uint")(c, p, k, v);
}
void Z3_API Z3_solver_set_params(Z3_context c, Z3_solver s, Z3_params p)
{
    const sim::quiet q;
    if (const auto i = solver::w().params.find(p); i != solver::w().params.end())
    {
        solver::w().limit[s] = i->second;
        return;
    }
    solver::real(&Z3_solver_set_params, "Z3_solver_set_params")(c, s, p);
}
void Z3_API Z3_optimize_set_params(Z3_context c, Z3_optimize s, Z3_params p)
{
    const sim::quiet q;
    if (const auto i = solver::w().params.find(p); i != solver::w().params.end())
    {
        solver::w().opt_limit[s] = i->second;
        return;
    }
    solver::real(&Z3_optimize_set_params, "Z3_optimize_set_params")(c, s, p);
}
Z3_solver Z3_API Z3_mk_solver(Z3_context c)
{
    const sim::quiet q;
    const auto       s = solver::real(&Z3_mk_solver, "Z3_mk_solver")(c);
    solver::w().limit.erase(s);
    return s;
}
Z3_context Z3_API Z3_mk_context_rc(Z3_config k)
{
    const sim::quiet q;
    const auto       c = solver::real(&Z3_mk_context_rc, "Z3_mk_context_rc")(k);
    solver::w().cancelled.erase(c);
    solver::w().failed.erase(c);
    return c;
}
Z3_optimize Z3_API Z3_mk_optimize(Z3_context c)
{
    const sim::quiet q;
    const auto       s = solver::real(&Z3_mk_optimize, "Z3_mk_optimize")(c);
    solver::w().opt_limit.erase(s);
    return s;
}
Z3_lbool Z3_API Z3_solver_check_assumptions(Z3_context c, Z3_solver s, unsigned n, Z3_ast const* a)
{
    std::optional<unsigned> t{};
    {
        const sim::quiet q;
        if (const auto i = solver::w().limit.find(s); i != solver::w().limit.end())
        {
            t = i->second;
        }
    }
    if (!solver::wait(c, t))
    {
        return Z3_L_UNDEF;
    }
    const sim::quiet q;
    return solver::real(&Z3_solver_check_assumptions, "Z3_solver_check_assumptions")(c, s, n, a);
}
void Z3_API Z3_solver_assert(Z3_context c, Z3_solver s, Z3_ast a)
{
    const sim::quiet q;
    if (solver::w().cancelled.count(c) && sim::chance("refused", 30))
    {
        sim::probe("assert-cancelled");
        solver::w().failed[c] = Z3_EXCEPTION;
        return;
    }
    if (solver::w().on && solver::w().memout && sim::fault("solver-memout", 2))
    {
        solver::w().failed[c] = Z3_MEMOUT_FAIL;
        ++solver::w().memouts;
        return;
    }
    solver::real(&Z3_solver_assert, "Z3_solver_assert")(c, s, a);
}
Z3_lbool Z3_API Z3_optimize_check(Z3_context c, Z3_optimize o, unsigned n, Z3_ast const* a)
{
    std::optional<unsigned> t{};
    {
        const sim::quiet q;
        if (const auto i = solver::w().opt_limit.find(o); i != solver::w().opt_limit.end())
        {
            t = i->second;
        }
    }
    if (!solver::wait(c, t))
    {
        return Z3_L_UNDEF;
    }
    const sim::quiet q;
    return solver::real(&Z3_optimize_check, "Z3_optimize_check")(c, o, n, a);
}
void Z3_API Z3_interrupt(Z3_context c)
{
    const sim::quiet q;
    if (const auto i = solver::w().active.find(c); i != solver::w().active.end())
    {
        i->second->interrupted = true;
        ++solver::w().interrupts;
    }
    else if (solver::w().on)
    {
        solver::w().cancelled[c] = true;
        ++solver::w().lost_interrupts;
    }
}
Z3_error_code Z3_API Z3_get_error_code(Z3_context c)
{
    const sim::quiet q;
    if (const auto i = solver::w().failed.find(c); i != solver::w().failed.end())
    {
        const auto e = i->second;
        solver::w().failed.erase(i);
        return e;
    }
    return solver::real(&Z3_get_error_code, "Z3_get_error_code")(c);
}
}

namespace
{
using lyt      = fiction::cart_gate_clk_lyt;
using params_t = fiction::exact_physical_design_params;

struct job
{
    net::spec                            s{};
    params_t                             ps{};
    std::optional<uint64_t>              best{};  // the area that the sequential search arrives at without any disturbance
    fiction::exact_physical_design_stats st{};
    std::optional<lyt>                   l{}, other{};
    bool                                 threw = false;
    std::string                          what{};
    uint64_t                             took = 0;

    void draw()
    {
        const sim::quiet q;
        sim::set_hardware_concurrency(static_cast<unsigned>(sim::choose("cpus", 1, 4)));  // Z3 divides by it
        s                     = net::draw(2, 2);
        ps.scheme             = sim::pick<const char*>("scheme", {"2DDWAVE", "2DDWAVE", "USE", "RES", "ROW", "COLUMNAR", "ESR"});
        ps.crossings          = sim::chance("crossings", 60);
        ps.border_io          = sim::chance("border", 40);
        ps.desynchronize      = sim::chance("desynchronize", 60);
        ps.straight_inverters = sim::chance("straight", 20);
        ps.minimize_wires     = sim::chance("min-wires", 15);
        ps.minimize_crossings = sim::chance("min-crossings", 15);
        ps.upper_bound_area   = static_cast<uint16_t>(sim::choose("area", 3, 12));
        if (sim::chance("limit-x", 15))
        {
            ps.upper_bound_x = static_cast<uint16_t>(sim::choose("x", 1, 4));
        }
        if (sim::chance("limit-y", 15))
        {
            ps.upper_bound_y = static_cast<uint16_t>(sim::choose("y", 1, 4));
        }
        sim::describe("%s %s; %s area<=%d x<=%d y<=%d crossings=%d border=%d desync=%d straight=%d min=%d%d", s.named ? "named" : "", s.text().c_str(), ps.scheme.c_str(), ps.upper_bound_area, ps.upper_bound_x, ps.upper_bound_y, ps.crossings,
                      ps.border_io, ps.desynchronize, ps.straight_inverters, ps.minimize_wires, ps.minimize_crossings);
    }
    void reference()
    {
        const sim::quiet q;
        auto             p = ps;
        p.num_threads      = 1;
        sim::enable_fault("clock-jump", false);
        fiction::exact_physical_design_stats x{};
        const auto                           n = s.build();
        if (const auto r = fiction::exact<lyt>(n, p, &x))
        {
            best = x.x_size * x.y_size;
        }
        sim::enable_fault("clock-jump", sim::chance("jumps", 30));
        sim::describe("best=%lld", best ? (long long)*best : -1ll);
    }
    void run()
    {
        const auto n = [&] { const sim::quiet q; return s.build(); }();
        const auto a = sim::now_ns();
        try
        {
            l = fiction::exact<lyt>(n, ps, &st);
        }
        catch (const std::exception& e)
        {
            const sim::quiet q;
            threw = true;
            what  = e.what();
        }
        catch (const z3::exception& e)
        {
            const sim::quiet q;
            threw = true;
            what  = e.msg();
        }
        took = sim::now_ns() - a;
    }
    void judge(bool undisturbed) const
    {
        const sim::quiet q;
        const bool       complete = undisturbed && took / 1'000'000 < ps.timeout;
        sim::probe(took / 1'000'000 < ps.timeout ? "in-time" : "timed-out");
        SIM_CHECK(!threw, "throws", "the search ends with an exception: %s", what.c_str());
        if (l)
        {
            net::rules r{};
            r.planar             = !ps.crossings;
            r.straight_inverters = ps.straight_inverters;
            r.border             = ps.border_io;
            net::check(*l, s, r);
            const auto area = (uint64_t)(l->x() + 1) * (l->y() + 1);
            SIM_CHECK(area <= ps.upper_bound_area && l->x() < ps.upper_bound_x && l->y() < ps.upper_bound_y, "bounds", "the layout is %dx%d", (int)l->x() + 1, (int)l->y() + 1);
            SIM_CHECK(best.has_value(), "spurious", "a layout of %llu tiles although the sequential search finds none", (unsigned long long)area);
            SIM_CHECK(area >= *best, "smaller", "a layout of %llu tiles although the sequential search finds %llu as the minimum", (unsigned long long)area, (unsigned long long)*best);
            SIM_CHECK(!complete || area == *best, "not-minimal", "a layout of %llu tiles although there is one of %llu", (unsigned long long)area, (unsigned long long)*best);
            SIM_CHECK(st.x_size == l->x() + 1 && st.y_size == l->y() + 1 && st.num_gates == l->num_gates() && st.num_wires == l->num_wires() && st.num_crossings == l->num_crossings(), "statistics",
                      "the statistics do not describe the layout returned");
            sim::probe("layout");
            sim::note(area);
        }
        else
        {
            SIM_CHECK(!complete || !best, "lost", "no layout although there is one of %llu tiles", (unsigned long long)*best);
            sim::probe("no-layout");
        }
        SIM_CHECK(st.time_total.count() >= 0 && (uint64_t)st.time_total.count() <= took + 1'000'000, "time", "a total time of %lld ns in a call that took %llu ns", (long long)st.time_total.count(), (unsigned long long)took);
        if (ps.num_threads > 1)
        {
            sim::probe("parallel");
        }
        sim::nontrivial();
    }
};
void report()
{
    const sim::quiet q;
    auto&            w = solver::w();
    sim::probe("checks", (int64_t)w.checks);
    if (w.interrupts)
    {
        sim::probe("interrupted", (int64_t)w.interrupts);
    }
    if (w.lost_interrupts)
    {
        sim::probe("interrupt-between-checks", (int64_t)w.lost_interrupts);
    }
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined", sim::threads_unjoined());
}
}  // namespace

// the sequential search is exact: another method does not find anything smaller
SIM_SCENARIO(yardstick, 2)
{
    job j{};
    j.draw();
    {
        const sim::quiet q;
        j.ps.scheme        = "2DDWAVE";
        j.ps.desynchronize = true;
        fiction::graph_oriented_layout_design_params g{};
        g.mode               = sim::pick("mode", {fiction::graph_oriented_layout_design_params::effort_mode::HIGH_EFFICIENCY, fiction::graph_oriented_layout_design_params::effort_mode::HIGH_EFFORT});
        g.planar             = !j.ps.crossings;
        g.straight_inverters = j.ps.straight_inverters;
        g.seed               = static_cast<uint32_t>(sim::choose("seed", 0, 9));
        g.timeout            = 20;
        const auto n         = j.s.build();
        j.other              = fiction::graph_oriented_layout_design<lyt>(n, g);
    }
    j.reference();
    const sim::quiet q;
    if (const auto& o = j.other; o && (o->x() + 1) * (o->y() + 1) <= j.ps.upper_bound_area && o->x() < j.ps.upper_bound_x && o->y() < j.ps.upper_bound_y)
    {
        const auto a = (uint64_t)(o->x() + 1) * (o->y() + 1);
        sim::probe("compared");
        SIM_CHECK(j.best.has_value(), "missed", "no layout although there is one of %dx%d:%s", (int)o->x() + 1, (int)o->y() + 1, net::picture(*o).c_str());
        SIM_CHECK(*j.best <= a, "not-exact", "the smallest layout is said to have %llu tiles although there is one of %dx%d:%s", (unsigned long long)*j.best, (int)o->x() + 1, (int)o->y() + 1, net::picture(*o).c_str());
        if (*j.best < a)
        {
            sim::probe("better");
        }
        sim::nontrivial();
    }
}
// continuing from the solver's earlier states finds the same as starting anew for each number of tiles
SIM_SCENARIO(anew, 2)
{
    job j{};
    j.draw();
    j.reference();
    const sim::quiet q;
    sim::enable_fault("clock-jump", false);
    const auto              n = j.s.build();
    std::optional<uint64_t> first{};
    for (uint64_t u = 2; u <= (j.best ? *j.best : j.ps.upper_bound_area) && !first; ++u)
    {
        auto p             = j.ps;
        p.num_threads      = 1;
        p.fixed_size       = true;
        p.upper_bound_area = static_cast<uint16_t>(u);
        fiction::exact_physical_design_stats x{};
        if (const auto r = fiction::exact<lyt>(n, p, &x))
        {
            first = x.x_size * x.y_size;
            SIM_CHECK(*first == u, "fixed-size", "a layout of %llu tiles was asked for, %llu returned", (unsigned long long)u, (unsigned long long)*first);
        }
    }
    SIM_CHECK(first == j.best, "incremental", "the smallest layout has %lld tiles, %lld if each number of tiles is looked at on its own", j.best ? (long long)*j.best : -1ll, first ? (long long)*first : -1ll);
    sim::probe("anew");
    sim::nontrivial();
}
// several threads, any durations of the checks
SIM_SCENARIO(parallel, 6)
{
    job j{};
    j.draw();
    j.reference();
    {
        const sim::quiet q;
        j.ps.num_threads   = static_cast<size_t>(sim::choose("threads", 1, 4));
        solver::w().on     = true;
        solver::w().regime = static_cast<int>(sim::choose("regime", 0, 2));
        sim::describe("threads=%zu regime=%d", j.ps.num_threads, solver::w().regime);
    }
    j.run();
    j.judge(true);
    report();
}

// deadlines: the search ends soon after them whatever the solver does, and a layout is no larger than it has to be
SIM_SCENARIO(deadline, 4)
{
    job j{};
    j.draw();
    j.reference();
    {
        const sim::quiet q;
        j.ps.num_threads   = static_cast<size_t>(sim::choose("threads", 1, 4));
        j.ps.timeout       = static_cast<unsigned>(sim::pick<int64_t>("timeout", {1, 20, 100, 500, 2000, 10'000}));
        solver::w().on     = true;
        solver::w().regime = static_cast<int>(sim::choose("regime", 1, 3));
        sim::describe("threads=%zu regime=%d timeout=%u", j.ps.num_threads, solver::w().regime, j.ps.timeout);
    }
    sim::enable_fault("clock-jump", false);
    sim::enable_fault("late-wakeup", false);
    const int64_t speed = sim::pick<int64_t>("ns-per-step", {1, 10, 60});
    sim::set_ns_per_step(speed);
    const auto begin     = sim::steps();
    solver::w().deadline = sim::now_ns() + j.ps.timeout * 1'000'000ull;
    j.run();
    j.judge(true);
    report();
    const sim::quiet q;
    const auto setup = static_cast<int64_t>(sim::steps() - begin) * speed;  // of the solver's instances
    // a check for an optimized layout may begin just before the end and may have the whole time again
    const auto slack = static_cast<int64_t>(j.ps.timeout) * 1'000'000;
    SIM_CHECK(solver::w().over <= slack + 2 * setup + 3'000'000, "deadline", "a check of the solver goes on for %lld ms after the timeout of %u ms", (long long)(solver::w().over / 1'000'000), j.ps.timeout);
}
// a solver that fails
SIM_SCENARIO(memout, 2)
{
    job j{};
    j.draw();
    j.reference();
    {
        const sim::quiet q;
        j.ps.num_threads   = static_cast<size_t>(sim::choose("threads", 1, 3));
        solver::w().on     = true;
        solver::w().memout = true;
        solver::w().regime = static_cast<int>(sim::choose("regime", 0, 2));
        sim::describe("threads=%zu regime=%d memout", j.ps.num_threads, solver::w().regime);
    }
    j.run();
    const bool failed = solver::w().memouts > 0;
    if (failed)
    {
        sim::probe("solver-failed");
    }
    j.judge(!failed);
    report();
}
// two designs at once
SIM_SCENARIO(two_users, 2)
{
    job j[2];
    for (auto& x : j)
    {
        x.draw();
        x.ps.upper_bound_area = std::min<uint16_t>(x.ps.upper_bound_area, 8);
        x.reference();
    }
    {
        const sim::quiet q;
        for (auto& x : j)
        {
            x.ps.num_threads = static_cast<size_t>(sim::choose("threads", 1, 2));
        }
        solver::w().on     = true;
        solver::w().regime = static_cast<int>(sim::choose("regime", 0, 2));
    }
    std::thread t{[&] { j[1].run(); }};
    j[0].run();
    t.join();
    j[0].judge(true);
    j[1].judge(true);
    report();
    sim::probe("callers");
}
