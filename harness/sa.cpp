// O01: simulated annealing, single and multi-start, under arbitrary schedules and entropy.
#include "sim.hpp"

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <vector>

namespace
{
uint64_t mixh(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct state
{
    int              chain = -1;
    std::vector<int> v{};
};

template <typename C>
struct chain_log
{
    state  init{}, cur{}, proposed{};
    C      cur_cost{}, prop_cost{}, best_cost{};
    bool   have_init = false, pending = false, prop_known = false;
    size_t next_calls = 0, next_at_level = 0;
    double temp       = 0;
    double prop_temp  = 0;  // temperature at which the pending proposal was made
    bool   first_level_done = false;
    size_t levels = 0;
    double exp_acc = 0, var_acc = 0, acc = 0;
    size_t uphill = 0;
    uint64_t rng  = 0;
};

template <typename C>
struct landscape
{
    uint64_t salt;
    int      dims, span;
    int      shape;
    double   scale;
    C        operator()(const state& s) const
    {
        double x = 0;
        for (size_t i = 0; i < s.v.size(); ++i)
        {
            if (shape == 0)
            {
                x += static_cast<double>((s.v[i] - static_cast<int>(i)) * (s.v[i] - static_cast<int>(i)));
            }
            else if (shape == 1)
            {
                x += static_cast<double>(mixh(salt ^ (static_cast<uint64_t>(s.v[i]) * 131 + i)) % 1000);
            }
            else if (shape == 2)
            {
                x -= static_cast<double>(s.v[i] % 17);
            }
            else
            {
                x += 1.0;  // flat
            }
        }
        return static_cast<C>(x * scale);
    }
};

bool eq(const state& a, const state& b)
{
    return a.chain == b.chain && a.v == b.v;
}

template <typename C>
struct recorder
{
    landscape<C>              land;
    double                    init_temp{}, final_temp{};
    size_t                    cycles{};
    int                       sched{};
    std::vector<chain_log<C>> chains;
    std::map<unsigned, int>   chain_of_thread;
    uint64_t                  salt{};

    double ref_schedule(double t) const
    {
        switch (sched)
        {
            case 0: return t - 10.0;
            case 1: return t * 0.99;
            case 2: return t * 0.5;
            case 3: return t - 1.0;
            default: return t * 1.5 - 60.0;  // may rise: the result is clamped to [final, init]
        }
    }
    double clamp(double t) const
    {
        return t < final_temp ? final_temp : init_temp < t ? init_temp : t;
    }
    state fresh()
    {
        const sim::quiet q;
        state            s;
        s.chain = static_cast<int>(chains.size());
        chains.emplace_back();
        chains.back().rng = mixh(salt ^ static_cast<uint64_t>(s.chain));
        for (int i = 0; i < land.dims; ++i)
        {
            s.v.push_back(static_cast<int>(mixh(salt ^ static_cast<uint64_t>(s.chain * 977 + i)) % static_cast<uint64_t>(land.span)));
        }
        chains.back().init = s;
        chains.back().cur  = s;
        chains.back().temp = init_temp;
        return s;
    }
    chain_log<C>& log_of(const state& s, const char* who)
    {
        SIM_CHECK(s.chain >= 0 && s.chain < static_cast<int>(chains.size()) && static_cast<int>(s.v.size()) == land.dims,
                  "foreign-state", "%s was called with a state nobody generated (moved-from or default state)", who);
        chain_of_thread[sim::current_thread()] = s.chain;
        return chains[static_cast<size_t>(s.chain)];
    }
    // which state does the chain continue from? decides the pending acceptance
    void settle(chain_log<C>& c, const state& now)
    {
        if (!c.pending)
        {
            SIM_CHECK(eq(now, c.cur), "wrong-current", "a neighbour was requested of a state that is not the current one");
            return;
        }
        SIM_CHECK(c.prop_known, "unevaluated", "a proposed state was never evaluated");
        const double d        = static_cast<double>(c.prop_cost - c.cur_cost);
        const bool   is_prop  = eq(now, c.proposed);
        const bool   is_cur   = eq(now, c.cur);
        const bool   accepted = is_prop && (!is_cur || d <= 0);
        SIM_CHECK(is_prop || is_cur, "wrong-current", "the chain continues from a state that is neither the old nor the proposed one");
        if (!(is_prop && is_cur))
        {
            if (d <= 0)
            {
                SIM_CHECK(accepted, "reject-better", "a state that is not worse (delta %g) was rejected", d);
            }
            else if (d > 30.0 * c.prop_temp)
            {
                SIM_CHECK(!accepted, "accept-hopeless", "a state with delta %g was accepted at temperature %g", d, c.prop_temp);
            }
            else
            {
                const double p = std::exp(-d / c.prop_temp);
                c.exp_acc += p;
                c.var_acc += p * (1 - p);
                c.acc += accepted ? 1 : 0;
                ++c.uphill;
            }
        }
        if (is_prop)
        {
            c.cur      = c.proposed;
            c.cur_cost = c.prop_cost;
        }
        c.pending = false;
    }
    C cost(const state& s)
    {
        const sim::quiet q;
        auto&            c = log_of(s, "the cost function");
        const C          v = land(s);
        if (!c.have_init)
        {
            SIM_CHECK(eq(s, c.init), "init", "the first evaluated state is not the initial one");
            c.have_init = true;
            c.cur_cost  = v;
            c.best_cost = v;
        }
        else if (c.pending && eq(s, c.proposed))
        {
            c.prop_cost  = v;
            c.prop_known = true;
        }
        if (v < c.best_cost)
        {
            c.best_cost = v;
        }
        return v;
    }
    state next(const state& s)
    {
        const sim::quiet q;
        auto&            c = log_of(s, "the neighbour function");
        settle(c, s);
        ++c.next_calls;
        ++c.next_at_level;
        SIM_CHECK(c.next_at_level <= cycles, "too-many-cycles", "more than %zu cycles at temperature %g", cycles, c.temp);
        SIM_CHECK(c.temp > final_temp, "past-final", "neighbours are generated at temperature %g, final is %g", c.temp, final_temp);
        state n = s;
        c.rng   = mixh(c.rng);
        if (c.rng % 11 != 0)
        {
            auto& x = n.v[(c.rng >> 8) % n.v.size()];
            x       = (x + ((c.rng >> 20) & 1 ? 1 : land.span - 1)) % land.span;
        }
        if (c.rng % 7 == 0)
        {
            n.v[(c.rng >> 24) % n.v.size()] = static_cast<int>((c.rng >> 32) % static_cast<uint64_t>(land.span));
        }
        c.proposed   = n;
        c.pending    = true;
        c.prop_known = false;
        c.prop_temp  = c.temp;
        return n;
    }
    double schedule(double t)
    {
        const sim::quiet q;
        const auto       it = chain_of_thread.find(sim::current_thread());
        if (it != chain_of_thread.end())
        {
            auto& c = chains[static_cast<size_t>(it->second)];
            SIM_CHECK(t == c.temp, "temperature", "the schedule is asked to cool %g while the chain is at %g", t, c.temp);
            SIM_CHECK(c.next_at_level == cycles, "cycles", "%zu instead of %zu cycles at temperature %g", c.next_at_level, cycles, t);
            c.temp          = clamp(ref_schedule(t));
            c.next_at_level = 0;
            ++c.levels;
        }
        return ref_schedule(t);
    }
    void finish_chain(chain_log<C>& c)
    {
        SIM_CHECK(c.have_init, "no-init", "an initial state was never evaluated");
        SIM_CHECK(c.temp <= final_temp, "stopped-early", "the chain stopped at temperature %g, final is %g", c.temp, final_temp);
    }
};

template <typename C>
void go(bool multi)
{
    recorder<C> r;
    size_t      instances = 1;
    {
        const sim::quiet q;
        r.salt        = sim::bits("salt");
        r.land.salt   = r.salt;
        r.land.dims   = static_cast<int>(sim::choose("dims", 1, 4));
        r.land.span   = static_cast<int>(sim::choose("span", 2, 40));
        r.land.shape  = static_cast<int>(sim::choose("shape", 0, 3));
        r.land.scale  = std::is_floating_point_v<C> ? sim::real("scale", 0.01, 5.0) : 1.0;
        r.sched       = static_cast<int>(sim::choose("sched", 0, 4));
        r.init_temp   = sim::real("init_temp", 1.0, 120.0);
        r.final_temp  = sim::chance("final>=init", 6) ? r.init_temp + sim::real("above", 0.0, 3.0) : r.init_temp * sim::real("final", 0.05, 1.0);
        r.cycles      = static_cast<size_t>(sim::choose("cycles", 0, 9));
        instances     = static_cast<size_t>(sim::choose("instances", 1, 6));
        if (r.sched == 4)
        {
            // the rising schedule ends only if it starts below its fixed point of 120
            r.init_temp = std::min(r.init_temp, 100.0);
            if (r.final_temp > r.init_temp)
            {
                r.final_temp = r.init_temp;
            }
        }
        if (r.sched == 1)
        {
            r.final_temp = std::max(r.final_temp, r.init_temp * 0.7);
        }
        sim::describe("%s cost=%s dims=%d span=%d shape=%d sched=%d T=%.3f..%.3f cycles=%zu instances=%zu", multi ? "multi" : "single",
                      std::is_floating_point_v<C> ? "double" : "int", r.land.dims, r.land.span, r.land.shape, r.sched, r.init_temp,
                      r.final_temp, r.cycles, multi ? instances : 1);
        r.chains.reserve(64);
    }
    const auto cost  = [&r](const state& s) { return r.cost(s); };
    const auto next  = [&r](const state& s) { return r.next(s); };
    const auto sched = [&r](const double t) { return r.schedule(t); };
    // the two schedules of the library are called through the recorder and compared with the reference values
    const auto sched_lib = [&r](const double t)
    {
        const double want = r.schedule(t);
        const double got  = r.sched == 0 ? fiction::linear_temperature_schedule(t) :
                            r.sched == 1 ? fiction::geometric_temperature_schedule(t) :
                                           want;
        SIM_CHECK(got == want, "schedule-value", "temperature schedule yields %g instead of %g", got, want);
        return got;
    };
    (void)sched;
    std::pair<state, C> res;
    if (multi)
    {
        res = fiction::multi_simulated_annealing(r.init_temp, r.final_temp, r.cycles, instances, [&r] { return r.fresh(); }, cost, sched_lib, next);
    }
    else
    {
        const state s0 = r.fresh();
        res            = fiction::simulated_annealing(s0, r.init_temp, r.final_temp, r.cycles, cost, sched_lib, next);
    }
    const sim::quiet q;
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    SIM_CHECK(r.chains.size() == instances || !multi, "instances", "%zu initial states were generated instead of %zu", r.chains.size(), instances);
    SIM_CHECK(res.first.chain >= 0 && res.first.chain < static_cast<int>(r.chains.size()), "result-foreign", "the returned state was never generated");
    C      best   = r.chains[0].best_cost;
    size_t total  = 0;
    for (auto& c : r.chains)
    {
        r.finish_chain(c);
        best = c.best_cost < best ? c.best_cost : best;
        total += c.next_calls;
        if (c.uphill > 0)
        {
            const double z = (c.acc - c.exp_acc) / std::sqrt(c.var_acc + 1.0);
            SIM_CHECK(std::fabs(z) < 8.0, "metropolis", "%g of %zu uphill moves accepted, %g expected", c.acc, c.uphill, c.exp_acc);
        }
        sim::probe("uphill", static_cast<int64_t>(c.uphill));
        sim::probe("uphill-accepted", static_cast<int64_t>(c.acc));
    }
    const C have = r.land(res.first);
    SIM_CHECK(have == res.second, "cost-mismatch", "returned cost %g does not belong to the returned state (its cost is %g)",
              static_cast<double>(res.second), static_cast<double>(have));
    SIM_CHECK(!(best < res.second), "not-minimal", "returned cost %g although a state of cost %g was evaluated",
              static_cast<double>(res.second), static_cast<double>(best));
    sim::note(static_cast<uint64_t>(static_cast<int64_t>(res.second * 1000)));
    for (const int x : res.first.v)
    {
        sim::note(static_cast<uint64_t>(x));
    }
    if (total > 0)
    {
        sim::nontrivial();
    }
    sim::probe(multi ? "multi" : "single");
    sim::probe("proposals", static_cast<int64_t>(total));
}
}  // namespace

SIM_SCENARIO(single_int, 1)
{
    go<int>(false);
}
SIM_SCENARIO(single_double, 1)
{
    go<double>(false);
}
SIM_SCENARIO(multi_int, 3)
{
    go<int64_t>(true);
}
SIM_SCENARIO(multi_double, 3)
{
    go<double>(true);
}
// a long chain on a steep landscape: the acceptance probability itself
SIM_SCENARIO(metropolis, 1)
{
    const double   temp   = sim::real("temp", 0.5, 50.0);
    const double   delta  = temp * sim::real("ratio", 0.05, 4.0);
    const size_t   cycles = 3000;
    uint64_t       acc = 0, prop = 0;
    // two-level system: state 1 costs delta more than state 0; from 1 the chain always falls back
    bool at1 = false, last1 = false;
    fiction::simulated_annealing(
        0, temp, temp / 2, cycles, [&](const int s) { return s ? delta : 0.0; }, [&](const double) { return temp / 2; },
        [&](const int s)
        {
            const sim::quiet q;
            if (last1)
            {
                ++prop;
                acc += s == 1;
            }
            at1   = s == 1;
            last1 = !at1;
            return at1 ? 0 : 1;
        });
    const double p = std::exp(-delta / temp), n = static_cast<double>(prop);
    sim::describe("two-level T=%.3f delta=%.3f p=%.4f accepted %llu of %llu", temp, delta, p, static_cast<unsigned long long>(acc),
                  static_cast<unsigned long long>(prop));
    const double z = (static_cast<double>(acc) - p * n) / std::sqrt(n * p * (1 - p) + 1);
    SIM_CHECK(std::fabs(z) < 7.0, "metropolis", "%llu of %llu uphill moves accepted, %.1f expected", static_cast<unsigned long long>(acc),
              static_cast<unsigned long long>(prop), p * n);
    sim::nontrivial();
    sim::note(acc);
}
