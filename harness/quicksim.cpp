// S01: QuickSim under arbitrary schedules, thread counts, entropy; S02: its timeout under simulated clocks.
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/quicksim.hpp>

#include <algorithm>
#include <limits>
#include <set>

namespace
{
using namespace ref;

struct setup
{
    model                    m{};
    unsigned                 base{2};
    fiction::quicksim_params ps{};
    std::vector<std::string> fixed{};  // configurations every schedule has to visit (and report, if valid)
    std::vector<int>         pre{};    // 1: must be negative
    std::vector<size_t>      unknown{};
    size_t                   repeat{};
};

template <typename Lyt>
setup make(const lattice& lat, bool timeout)
{
    setup s{};
    auto& m = s.m;
    m.lat   = lat;
    const auto n = static_cast<int>(sim::choose("n", 0, 7));
    m.sites      = random_sites("site", n, static_cast<int>(sim::choose("w", 1, 14)), static_cast<int>(sim::choose("h", 0, 6)), sim::chance("pairs", 40));
    m.mu         = sim::pick("mu", {-0.32, -0.28, -0.25, -0.1, -0.5, -0.05});
    m.eps        = sim::pick("eps", {5.6, 4.0, 10.0, 1.0});
    m.lambda     = sim::pick("lambda", {5.0, 2.0, 0.5, 15.0});
    m.finish();
    s.base                     = static_cast<unsigned>(sim::choose("base", 2, 3));
    s.ps.simulation_parameters = params_of(m, s.base);
    s.ps.iteration_steps       = static_cast<uint64_t>(sim::choose("iterations", 0, 6));
    s.ps.number_threads        = static_cast<uint64_t>(sim::choose("threads", 0, 5));
    s.ps.alpha                 = sim::pick("alpha", {0.7, 0.0, 0.3, 0.95, 1.0});
    s.ps.timeout               = std::numeric_limits<uint64_t>::max();
    if (timeout)
    {
        s.ps.timeout = static_cast<uint64_t>(sim::pick<int64_t>("timeout", {0, 1, 2, 5, 50, 1000, 60'000, 10'000'000}));
    }
    // SiDBs that are negative even if all others are
    const std::vector<int> neg(m.n(), -1);
    for (size_t i = 0; i < m.n(); ++i)
    {
        const double x = -m.vint(neg, i) + m.mu;
        if (std::fabs(x + 1e-6) < 1e-8)
        {
            sim::discard("borderline");
        }
        s.pre.push_back(x < -1e-6);
        if (!s.pre.back())
        {
            s.unknown.push_back(i);
        }
    }
    const uint64_t t = std::max<uint64_t>(1, s.ps.number_threads);
    s.repeat         = std::max<uint64_t>(1, s.ps.iteration_steps / t) * t;
    sim::describe("n=%zu %s mu=%g eps=%g lambda=%g base=%u iterations=%llu threads=%llu alpha=%g timeout=%llu", m.n(), text(m).c_str(), m.mu, m.eps,
                  m.lambda, s.base, (unsigned long long)s.ps.iteration_steps, (unsigned long long)s.ps.number_threads, s.ps.alpha,
                  (unsigned long long)s.ps.timeout);
    return s;
}

// configurations that the search can reach: from the predefined ones plus one SiDB, adding SiDBs that are at least
// alpha times as far from the charged ones as the farthest one
std::set<uint32_t> reachable(const setup& s)
{
    const auto&        m = s.m;
    std::set<uint32_t> all, todo;
    uint32_t           pre = 0;
    for (size_t i = 0; i < m.n(); ++i)
    {
        pre |= s.pre[i] ? 1u << i : 0;
    }
    for (const auto i : s.unknown)
    {
        todo.insert(pre | (1u << i));
    }
    while (!todo.empty())
    {
        const auto c = *todo.begin();
        todo.erase(todo.begin());
        if (!all.insert(c).second)
        {
            continue;
        }
        double              far = 0;
        std::vector<double> dmin(m.n(), 0);
        for (size_t i = 0; i < m.n(); ++i)
        {
            if (c >> i & 1)
            {
                continue;
            }
            dmin[i] = 1e300;
            for (size_t j = 0; j < m.n(); ++j)
            {
                if (c >> j & 1)
                {
                    dmin[i] = std::min(dmin[i], dist(m.sites[i], m.sites[j], m.lat));
                }
            }
            far = std::max(far, dmin[i]);
        }
        for (size_t i = 0; i < m.n(); ++i)
        {
            if (!(c >> i & 1) && dmin[i] >= s.ps.alpha * far * (1 - 1e-12))
            {
                todo.insert(c | (1u << i));
            }
        }
    }
    return all;
}

template <typename Lyt>
void judge(const setup& s, const std::optional<fiction::sidb_simulation_result<Lyt>>& r, const Lyt& lyt, bool may_time_out, bool must_time_out, uint64_t took = 0)
{
    const sim::quiet q;
    const auto&      m = s.m;
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    SIM_CHECK(lyt.num_cells() == m.n(), "input-changed", "the simulated layout was changed");
    // what every run visits
    std::map<std::string, size_t> need;
    const bool                    runs = s.ps.iteration_steps > 0 && m.n() > 0;
    const auto                    add  = [&](const std::vector<int>& c, size_t times)
    {
        if (m.check(c) == verdict::valid)
        {
            need[model::key(c)] += times;
        }
    };
    if (runs)
    {
        add(std::vector<int>(m.n(), -1), 1);
        std::vector<int> c(m.n(), 0);
        bool             any = false;
        for (size_t i = 0; i < m.n(); ++i)
        {
            any |= s.pre[i] != 0;
        }
        if (any)
        {
            add(c, 1);
        }
        for (size_t i = 0; i < m.n(); ++i)
        {
            c[i] = s.pre[i] ? -1 : 0;
        }
        add(c, 1);
        for (const auto i : s.unknown)
        {
            auto d = c;
            d[i]   = -1;
            add(d, s.repeat);
        }
    }
    if (!r.has_value())
    {
        SIM_CHECK(need.empty() || may_time_out, "no-result", "no result although e.g. %s is physically valid and visited by every schedule", need.begin()->first.c_str());
        sim::probe("nullopt");
        return;
    }
    SIM_CHECK(runs, "spurious-result", "a result for an empty layout or zero iterations");
    SIM_CHECK(!must_time_out, "timeout-ignored", "a result although the deadline had passed before the search finished");
    SIM_CHECK(!r->charge_distributions.empty(), "empty-result", "an engaged result without charge distributions");
    SIM_CHECK(r->algorithm_name == "QuickSim", "meta", "algorithm name is %s", r->algorithm_name.c_str());
    SIM_CHECK(r->simulation_parameters.base == s.base && r->simulation_parameters.mu_minus == m.mu, "meta", "simulation parameters were not reported");
    SIM_CHECK(r->simulation_runtime.count() > 0 && (!took || r->simulation_runtime.count() <= static_cast<double>(took) * 1e-9 + 1e-6), "meta", "a run time of %g s in a call that took %g s", r->simulation_runtime.count(),
              static_cast<double>(took) * 1e-9);
    SIM_CHECK(r->additional_simulation_parameters.size() >= 2, "meta", "the parameters of the search are not reported");
    const auto                    reach = reachable(s);
    std::map<std::string, size_t> have;
    double                        emin = 1e300;
    for (const auto& cds : r->charge_distributions)
    {
        const auto c = charges(cds, m);
        const auto k = model::key(c);
        uint32_t   b = 0;
        bool       pre = true, all0 = true;
        for (size_t i = 0; i < c.size(); ++i)
        {
            SIM_CHECK(c[i] <= 0, "base", "a positively charged SiDB in a two-state simulation");
            b |= c[i] < 0 ? 1u << i : 0;
            pre &= s.pre[i] == (c[i] < 0);
            all0 &= c[i] == 0;
        }
        SIM_CHECK(m.check(c) != verdict::invalid, "invalid", "reported charge distribution %s is not physically valid", k.c_str());
        SIM_CHECK(cds.is_physically_valid(), "invalid-flag", "reported charge distribution %s is not marked physically valid", k.c_str());
        SIM_CHECK(pre || all0 || b + 1 == (1u << m.n()) || reach.count(b), "unreachable", "charge distribution %s cannot be constructed by the search", k.c_str());
        const double e = m.energy(c);
        SIM_CHECK(std::fabs(e - cds.get_electrostatic_potential_energy()) < 1e-6, "energy", "energy of %s is %.9f, reported %.9f", k.c_str(), e,
                  cds.get_electrostatic_potential_energy());
        for (size_t i = 0; i < c.size(); ++i)
        {
            const auto lp = cds.get_local_potential(co(m.sites[i]));
            SIM_CHECK(lp.has_value() && std::fabs(*lp - m.vint(c, i)) < 1e-6, "local-potential", "local potential of SiDB %zu in %s is wrong", i, k.c_str());
        }
        // the index identifies the distribution
        uint64_t ix = 0;
        for (const auto& cell : cds.get_sidb_order())
        {
            ix = ix * 2 + static_cast<uint64_t>(fiction::charge_state_to_sign(cds.get_charge_state(cell)) + 1);
        }
        SIM_CHECK(pre || all0 || b + 1 == (1u << m.n()) || cds.get_charge_index_and_base().first == ix, "charge-index", "charge index %llu of %s, expected %llu",
                  (unsigned long long)cds.get_charge_index_and_base().first, k.c_str(), (unsigned long long)ix);
        ++have[k];
        emin = std::min(emin, e);
    }
    for (const auto& [k, times] : need)
    {
        SIM_CHECK(have[k] >= times, "lost", "%s is visited %zu times by every schedule but reported %zu times", k.c_str(), times, have[k]);
    }
    // at most one report per visit
    const size_t visits = 3 + s.repeat * s.unknown.size() * std::max<size_t>(1, s.unknown.size());
    SIM_CHECK(r->charge_distributions.size() <= visits, "duplicated", "%zu reports from at most %zu visits", r->charge_distributions.size(), visits);
    const auto gs = r->groundstates();
    SIM_CHECK(!gs.empty(), "groundstates", "no ground state");
    for (const auto& g : gs)
    {
        SIM_CHECK(std::fabs(m.energy(charges(g, m)) - emin) < 3e-6, "groundstates", "a reported ground state does not have minimal energy");
    }
    sim::probe("results", static_cast<int64_t>(r->charge_distributions.size()));
    sim::note(r->charge_distributions.size());
    for (const auto& cds : r->charge_distributions)
    {
        sim::note(model::key(charges(cds, m)));
    }
    if (s.ps.number_threads > 1 && !s.unknown.empty())
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
}

template <typename Lyt>
void run(const lattice& lat)
{
    setup s;
    Lyt   lyt{};
    {
        const sim::quiet q;
        s = make<Lyt>(lat, false);
        place(lyt, s.m.sites);
    }
    const auto a = sim::now_ns();
    const auto r = fiction::quicksim(lyt, s.ps);
    const auto t = sim::now_ns() - a;
    judge<Lyt>(s, r, lyt, false, false, t);
}
}  // namespace

SIM_SCENARIO(run_100, 4)
{
    run<lyt100>(L100);
}
SIM_SCENARIO(run_111, 1)
{
    run<lyt111>(L111);
}
// two simulations in parallel user threads share nothing but the library
SIM_SCENARIO(two_users, 1)
{
    setup  s[2];
    lyt100 l[2];
    {
        const sim::quiet q;
        for (int i = 0; i < 2; ++i)
        {
            s[i] = make<lyt100>(L100, false);
            place(l[i], s[i].m.sites);
        }
    }
    std::optional<fiction::sidb_simulation_result<lyt100>> r[2];
    std::thread                                            t{[&] { r[1] = fiction::quicksim(l[1], s[1].ps); }};
    r[0] = fiction::quicksim(l[0], s[0].ps);
    t.join();
    judge<lyt100>(s[0], r[0], l[0], false, false);
    judge<lyt100>(s[1], r[1], l[1], false, false);
}
// the deadline is measured by a clock that jumps and that time passes on
SIM_SCENARIO(timeout, 3)
{
    setup  s;
    lyt100 lyt{};
    {
        const sim::quiet q;
        s = make<lyt100>(L100, true);
        place(lyt, s.m.sites);
    }
    sim::enable_fault("clock-step-back", false);
    const uint64_t a      = sim::now_ns();
    const auto     r      = fiction::quicksim(lyt, s.ps);
    const uint64_t b      = sim::now_ns();
    const bool     work   = s.ps.iteration_steps > 0 && !s.unknown.empty();
    const bool     could  = (b - a) / 1'000'000 >= s.ps.timeout;
    const bool     forced = work && s.ps.timeout == 0;
    judge<lyt100>(s, r, lyt, could, forced, b - a);
    {
        const sim::quiet q;
        sim::probe(could ? "deadline-passed" : "deadline-not-passed");
        if (r.has_value() && could)
        {
            sim::probe("result-just-before-deadline");
        }
        sim::nontrivial();
    }
}
// more iterations than anybody can wait for: only the deadline ends the search
SIM_SCENARIO(endless, 1)
{
    setup  s;
    lyt100 lyt{};
    {
        const sim::quiet q;
        s                    = make<lyt100>(L100, true);
        s.ps.timeout         = static_cast<uint64_t>(sim::choose("ms", 1, 2));
        s.ps.iteration_steps = 30'000;
        s.repeat             = s.ps.iteration_steps;
        place(lyt, s.m.sites);
        if (s.unknown.size() < 4)
        {
            sim::discard("too small");
        }
    }
    sim::set_step_cap(12'000'000);
    sim::enable_fault("clock-step-back", false);
    const auto       r = fiction::quicksim(lyt, s.ps);
    const sim::quiet q;
    SIM_CHECK(!r.has_value(), "timeout-ignored", "a result although the deadline had passed before the search finished");
    sim::probe("endless");
    sim::nontrivial();
}
