// S12: the accuracy and the time-to-solution of a heuristic count every repetition, whatever it returns and however long it takes.
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>

#include <chrono>
#include <cmath>
#include <limits>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <vector>

namespace tts
{
using namespace ref;

struct job;
job*& current()
{
    thread_local job* j = nullptr;
    return j;
}

// a layout type of our own: the heuristic called on it is found here, where its outcomes are scripted or recorded
template <typename Base>
struct watched : Base
{
    using Base::Base;
};

struct repetition
{
    bool   answered{};
    bool   found{};
    double seconds{};   // as reported by the run
    double elapsed{};   // on the simulated clock
};

struct job
{
    model                              m{};
    unsigned                           base{2};
    bool                               scripted{};
    std::set<std::string>              ground{};  // all ground states
    std::vector<std::string>           valid{};
    std::vector<repetition>            record{};
    fiction::quicksim_params           qs{};
    fiction::time_to_solution_params   ps{};
    fiction::time_to_solution_stats    st{};
    double                             total_elapsed{};

    bool make(bool script)
    {
        *this    = job{};
        scripted = script;
        m.lat    = L100;
        m.sites  = random_sites("site", static_cast<int>(sim::choose("n", 1, script ? 5 : 6)), static_cast<int>(sim::choose("w", 1, 14)), static_cast<int>(sim::choose("h", 0, 5)),
                                sim::chance("pairs", 50));
        m.mu     = sim::pick("mu", {-0.32, -0.28, -0.25, -0.1});
        m.eps    = sim::pick("eps", {5.6, 4.0, 10.0});
        m.lambda = sim::pick("lambda", {5.0, 2.0});
        m.finish();
        base = sim::chance("three-state", 25) ? 3 : 2;
        double emin = 1e300;
        std::map<std::string, double> energies;
        for (const auto& [k, v] : m.enumerate(base))
        {
            if (v == verdict::border)
            {
                return false;
            }
            std::vector<int> c(m.n());
            for (size_t i = 0; i < m.n(); ++i)
            {
                c[i] = k[i] == '-' ? -1 : k[i] == '+' ? 1 : 0;
            }
            energies[k] = m.energy(c);
            emin        = std::min(emin, energies[k]);
        }
        for (const auto& [k, e] : energies)
        {
            if (std::fabs(e - emin) < 1e-8)
            {
                ground.insert(k);
            }
            else if (e - emin < 1e-5)
            {
                return false;
            }
            valid.push_back(k);
        }
        qs.simulation_parameters = params_of(m, base);
        qs.iteration_steps       = static_cast<uint64_t>(sim::choose("iterations", script ? 1 : 0, 3));
        qs.number_threads        = static_cast<uint64_t>(sim::choose("threads", 0, 3));
        qs.alpha                 = sim::pick("alpha", {0.7, 0.0, 0.95, 1.0});
        qs.timeout               = std::numeric_limits<uint64_t>::max();
        if (sim::chance("deadline", 40))
        {
            qs.timeout = static_cast<uint64_t>(sim::pick<int64_t>("timeout", {0, 1, 2, 5, 50, 1000}));
        }
        ps.repetitions      = static_cast<uint64_t>(sim::choose("repetitions", 1, script ? 12 : 4));
        ps.confidence_level = sim::pick("confidence", {0.997, 0.5, 0.9, 0.99999});
        const auto e        = sim::choose("engine", 0, 2);
        ps.engine           = e == 0 ? fiction::exact_sidb_simulation_engine::QUICKEXACT :
                              e == 1 ? fiction::exact_sidb_simulation_engine::CLUSTERCOMPLETE :
                                       fiction::exact_sidb_simulation_engine::EXGS;
        sim::describe("n=%zu %s mu=%g eps=%g lambda=%g base=%u repetitions=%llu confidence=%g engine=%d iterations=%llu threads=%llu alpha=%g timeout=%llu", m.n(), text(m).c_str(), m.mu,
                      m.eps, m.lambda, base, (unsigned long long)ps.repetitions, ps.confidence_level, (int)e, (unsigned long long)qs.iteration_steps, (unsigned long long)qs.number_threads,
                      qs.alpha, (unsigned long long)qs.timeout);
        return true;
    }

    // does a result contain every ground state, none of its states being below them (it cannot be)?
    template <typename R>
    bool found_in(const R& r) const
    {
        std::set<std::string> have;
        for (const auto& cds : r.charge_distributions)
        {
            have.insert(model::key(charges(cds, m)));
        }
        for (const auto& g : ground)
        {
            if (have.count(g) == 0)
            {
                return false;
            }
        }
        return !ground.empty();
    }

    void judge() const
    {
        const sim::quiet q;
        SIM_CHECK(record.size() == ps.repetitions, "repetitions", "%zu runs of the heuristic, %llu were asked for", record.size(), (unsigned long long)ps.repetitions);
        size_t hits = 0, answered = 0;
        double reported = 0, elapsed = 0;
        for (const auto& r : record)
        {
            hits += r.found;
            answered += r.answered;
            reported += r.seconds;
            elapsed += r.answered ? r.seconds : r.elapsed;
        }
        const double n   = static_cast<double>(record.size());
        const double acc = static_cast<double>(hits) / n;
        SIM_CHECK(std::fabs(st.acc - 100.0 * acc) < 1e-9, "accuracy", "%zu of %zu runs found the ground state (%zu without any result), the accuracy is reported as %g %%", hits, record.size(),
                  record.size() - answered, st.acc);
        // a run without a result has no reported run time: it counts with zero up to the time that it took
        const double lo = reported / n * (1 - 1e-9) - 1e-12, hi = elapsed / n * (1 + 1e-9) + 1e-12;
        SIM_CHECK(st.mean_single_runtime >= lo && st.mean_single_runtime <= hi, "mean", "the mean run time is %.12g s, reported is %.12g s", reported / n, st.mean_single_runtime);
        const double want = hits == 0             ? std::numeric_limits<double>::infinity() :
                            hits == record.size() ? st.mean_single_runtime :
                                                    st.mean_single_runtime * std::log(1.0 - ps.confidence_level) / std::log(1.0 - acc);
        SIM_CHECK(std::isinf(want) ? std::isinf(st.time_to_solution) && st.time_to_solution > 0 : std::fabs(st.time_to_solution - want) <= 1e-9 * want, "tts",
                  "the time-to-solution is %.12g s, reported is %.12g s", want, st.time_to_solution);
        SIM_CHECK(st.single_runtime_exact >= 0 && st.single_runtime_exact <= total_elapsed + 1e-9, "exact", "the exact simulation took %g s of %g s in all", st.single_runtime_exact, total_elapsed);
        SIM_CHECK(st.algorithm == fiction::sidb_simulation_engine_name(ps.engine), "engine", "the reported reference is %s", st.algorithm.c_str());
        sim::probe(hits == 0 ? "never" : hits == record.size() ? "always" : "sometimes");
        if (answered < record.size())
        {
            sim::probe("no-answer");
        }
        if (ground.size() > 1)
        {
            sim::probe("degenerate");
        }
        sim::note(hits);
        sim::note(answered);
        sim::nontrivial();
    }
};

template <typename L, typename Base>
std::optional<fiction::sidb_simulation_result<L>> quicksim(const watched<Base>& lyt, const fiction::quicksim_params& qs)
{
    auto&          j = *current();
    repetition     rep{};
    const uint64_t a = sim::now_ns();
    std::optional<fiction::sidb_simulation_result<L>> r{};
    if (!j.scripted)
    {
        r = fiction::quicksim(static_cast<const L&>(lyt), qs);
        const sim::quiet q;
        rep.answered = r.has_value();
        rep.seconds  = r.has_value() ? r->simulation_runtime.count() : 0.0;
    }
    else
    {
        int64_t us = 0;
        {
            const sim::quiet q;
            us = sim::choose("us", 0, 3000);
        }
        std::this_thread::sleep_for(std::chrono::microseconds{us});
        const sim::quiet q;
        rep.seconds = static_cast<double>(us) * 1e-6;
        // nothing, an empty result, all ground states among others, or some states only
        const auto kind = sim::choose("kind", 0, 4);
        if (kind == 0)
        {
            rep.seconds = 0;
        }
        else
        {
            r.emplace();
            r->algorithm_name     = "scripted";
            r->simulation_runtime = std::chrono::duration<double>{rep.seconds};
            rep.answered          = true;
            const auto add        = [&](const std::string& k)
            {
                fiction::charge_distribution_surface<L> cds{static_cast<const L&>(lyt)};
                cds.assign_physical_parameters(qs.simulation_parameters);
                for (size_t i = 0; i < j.m.n(); ++i)
                {
                    cds.assign_charge_state(co(j.m.sites[i]), k[i] == '-' ? fiction::sidb_charge_state::NEGATIVE : k[i] == '+' ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL);
                }
                cds.update_after_charge_change();
                r->charge_distributions.push_back(cds);
            };
            if (kind >= 2)
            {
                for (const auto& k : j.valid)
                {
                    const bool must = kind == 4 && j.ground.count(k);
                    for (int n = must ? 1 + sim::chance("again", 30) : sim::chance("some", 40); n > 0; --n)
                    {
                        add(k);
                    }
                }
            }
        }
    }
    const sim::quiet q;
    rep.elapsed = static_cast<double>(sim::now_ns() - a) * 1e-9;
    rep.found   = r.has_value() && j.found_in(*r);
    j.record.push_back(rep);
    return r;
}
}  // namespace tts

namespace
{
using namespace tts;
using lyt_t = watched<lyt100>;

void work(job& j)
{
    lyt_t lyt{};
    {
        const sim::quiet q;
        place(lyt, j.m.sites);
        current() = &j;
    }
    const uint64_t a = sim::now_ns();
    fiction::time_to_solution(lyt, j.qs, j.ps, &j.st);
    j.total_elapsed = static_cast<double>(sim::now_ns() - a) * 1e-9;
}
void draw(job& j, bool script)
{
    const sim::quiet q;
    for (int i = 0; i < 10; ++i)
    {
        if (j.make(script))
        {
            return;
        }
    }
    sim::discard("borderline");
}
}  // namespace

SIM_SCENARIO(scripted, 3)
{
    job j;
    draw(j, true);
    work(j);
    j.judge();
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
}
SIM_SCENARIO(physical, 4)
{
    job j;
    draw(j, false);
    sim::enable_fault("clock-step-back", false);
    work(j);
    j.judge();
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
}
SIM_SCENARIO(two_users, 2)
{
    job        j[2];
    const bool script = sim::chance("scripted", 50);
    draw(j[0], script);
    draw(j[1], script);
    sim::enable_fault("clock-step-back", false);
    {
        std::thread t{[&] { work(j[1]); }};
        work(j[0]);
        t.join();
    }
    j[0].judge();
    j[1].judge();
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    sim::probe("callers");
}
// nothing to simulate: no division by zero
SIM_SCENARIO(empty, 1)
{
    job   j;
    lyt_t lyt{};
    {
        const sim::quiet q;
        j.scripted = true;
        j.ps.repetitions = static_cast<uint64_t>(sim::choose("repetitions", 1, 5));
        current()  = &j;
    }
    fiction::time_to_solution(lyt, j.qs, j.ps, &j.st);
    const sim::quiet q;
    SIM_CHECK(j.st.acc == 0 && std::isinf(j.st.time_to_solution) && j.st.mean_single_runtime == 0, "empty", "an empty layout: accuracy %g, time-to-solution %g", j.st.acc, j.st.time_to_solution);
    sim::nontrivial();
}
