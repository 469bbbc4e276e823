// S03: ClusterComplete finds exactly the physically valid charge distributions, whatever its work-stealing threads do.
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/clustercomplete.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>

#include <algorithm>
#include <set>
#include <thread>

namespace
{
using namespace ref;

model make(const lattice& lat, bool defects, int nmax)
{
    model m{};
    m.lat        = lat;
    const auto n = static_cast<int>(sim::choose("n", 1, nmax));
    m.sites      = random_sites("site", n, static_cast<int>(sim::choose("w", 1, 12)), static_cast<int>(sim::choose("h", 0, 5)), sim::chance("pairs", 40));
    m.mu         = sim::pick("mu", {-0.32, -0.28, -0.25, -0.1, -0.5, -0.05});
    m.eps        = sim::pick("eps", {5.6, 4.0, 10.0, 2.0});
    m.lambda     = sim::pick("lambda", {5.0, 2.0, 0.5, 15.0});
    if (sim::chance("global", 25))
    {
        m.global = sim::pick("global-pot", {-0.3, 0.2, -1.0, 0.05});
    }
    if (defects)
    {
        const auto k = sim::choose("defects", 1, 2);
        for (int64_t i = 0; i < k; ++i)
        {
            const auto d = random_sites("defect", 1, 20, 8)[0];
            if (std::find(m.sites.begin(), m.sites.end(), d) == m.sites.end() &&
                std::none_of(m.defects.begin(), m.defects.end(), [&](const auto& o) { return o.at == d; }))
            {
                m.defects.push_back({d, static_cast<int>(sim::pick("charge", {-1, 1})), sim::pick("deps", {5.6, 9.7}), sim::pick("dlambda", {5.0, 2.1})});
            }
        }
    }
    if (sim::chance("local", 30))
    {
        for (size_t i = 0; i < m.n(); ++i)
        {
            m.ext.push_back(sim::pick("local-pot", {0.0, 0.0, -0.2, 0.15, -0.6, 0.02}));
        }
    }
    m.finish();
    return m;
}

template <typename Lyt>
void judge(const model& m, unsigned base, const fiction::sidb_simulation_result<Lyt>& r, const char* who)
{
    const sim::quiet              q;
    const auto                    want = m.enumerate(base);
    std::map<std::string, size_t> have;
    for (const auto& cds : r.charge_distributions)
    {
        const auto c = charges(cds, m);
        const auto k = model::key(c);
        ++have[k];
        SIM_CHECK(want.count(k), "invalid", "%s reports %s, which is not physically valid", who, k.c_str());
        SIM_CHECK(have[k] == 1, "duplicate", "%s reports %s more than once", who, k.c_str());
        SIM_CHECK(cds.is_physically_valid(), "invalid-flag", "reported charge distribution %s is not marked physically valid", k.c_str());
        const double e = m.energy(c);
        SIM_CHECK(std::fabs(e - cds.get_electrostatic_potential_energy()) < 1e-6, "energy", "energy of %s is %.9f, reported %.9f", k.c_str(), e,
                  cds.get_electrostatic_potential_energy());
        for (size_t i = 0; i < c.size(); ++i)
        {
            const auto lp = cds.get_local_potential(co(m.sites[i]));
            SIM_CHECK(lp.has_value() && std::fabs(*lp - m.vint(c, i) - m.vext(i)) < 1e-6, "local-potential", "local potential of SiDB %zu in %s is %g, expected %g", i,
                      k.c_str(), lp.value_or(-99), m.vint(c, i) + m.vext(i));
        }
    }
    for (const auto& [k, v] : want)
    {
        SIM_CHECK(v != verdict::valid || have.count(k), "missing", "%s misses %s (energy %.6f), one of %zu physically valid distributions", who, k.c_str(),
                  [&]
                  {
                      std::vector<int> c;
                      for (const char x : k)
                      {
                          c.push_back(x == '-' ? -1 : x == '+' ? 1 : 0);
                      }
                      return m.energy(c);
                  }(),
                  want.size());
    }
    SIM_CHECK(r.algorithm_name == "ClusterComplete", "meta", "algorithm name is %s", r.algorithm_name.c_str());
    SIM_CHECK(r.simulation_parameters.mu_minus == m.mu, "meta", "simulation parameters were not reported");
    sim::note(have.size());
    for (const auto& cds : r.charge_distributions)
    {
        sim::note(model::key(charges(cds, m)));
    }
    sim::probe("valid-distributions", static_cast<int64_t>(have.size()));
    if (have.size() > 1)
    {
        sim::probe("several");
    }
}

template <typename Lyt>
void run(const model& m, Lyt& lyt, bool others = false)
{
    unsigned                                                 base = 3;
    fiction::clustercomplete_params<fiction::cell<Lyt>> ps{};
    {
        const sim::quiet q;
        base                                                = static_cast<unsigned>(sim::choose("base", 2, 3));
        ps.simulation_parameters                            = params_of(m, base);
        ps.global_potential                                 = m.global;
        bool local                                          = false;
        for (size_t i = 0; i < m.n(); ++i)
        {
            if (m.ext[i] != 0.0)
            {
                ps.local_external_potential[co(m.sites[i])] = m.ext[i];
                local                                       = true;
            }
        }
        if (local)
        {
            sim::probe("local-potentials");
        }
        ps.available_threads                                = static_cast<uint64_t>(sim::choose("threads", 0, 6));
        ps.validity_witness_partitioning_max_cluster_size_gss = static_cast<uint64_t>(sim::choose("witness", 0, 6));
        ps.num_overlapping_witnesses_limit_gss              = static_cast<uint64_t>(sim::choose("overlap", 0, 6));
        sim::describe("n=%zu %s base=%u mu=%g eps=%g lambda=%g global=%g local=%d defects=%zu threads=%llu witness=%llu overlap=%llu", m.n(), text(m).c_str(), base,
                      m.mu, m.eps, m.lambda, m.global, local, m.defects.size(), (unsigned long long)ps.available_threads,
                      (unsigned long long)ps.validity_witness_partitioning_max_cluster_size_gss, (unsigned long long)ps.num_overlapping_witnesses_limit_gss);
        place(lyt, m.sites);
    }
    const auto       a = sim::now_ns();
    const auto       r = fiction::clustercomplete(lyt, ps);
    const auto       t = sim::now_ns() - a;
    const sim::quiet q;
    SIM_CHECK(r.simulation_runtime.count() >= 0 && r.simulation_runtime.count() <= static_cast<double>(t) * 1e-9 + 1e-6, "runtime", "a run time of %g s in a call that took %g s", r.simulation_runtime.count(), static_cast<double>(t) * 1e-9);
    SIM_CHECK(others || sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    judge<Lyt>(m, base, r, "ClusterComplete");
    if (ps.available_threads > 1)
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
}
}  // namespace

SIM_SCENARIO(plain_100, 4)
{
    model m;
    {
        const sim::quiet q;
        m = make(L100, false, 8);
    }
    lyt100 l{};
    run(m, l);
}
SIM_SCENARIO(plain_111, 1)
{
    model m;
    {
        const sim::quiet q;
        m = make(L111, false, 6);
    }
    lyt111 l{};
    run(m, l);
}
// two simulations at once
SIM_SCENARIO(two_users, 1)
{
    model  m[2];
    lyt100 l[2];
    {
        const sim::quiet q;
        m[0] = make(L100, false, 5);
        m[1] = make(L100, false, 5);
    }
    std::thread t{[&] { run(m[1], l[1], true); }};
    run(m[0], l[0], true);
    t.join();
    const sim::quiet q;
    sim::probe("callers");
}
SIM_SCENARIO(defects, 2)
{
    model                                m;
    fiction::sidb_defect_surface<lyt100> l{};
    {
        const sim::quiet q;
        m = make(L100, true, 6);
        for (const auto& d : m.defects)
        {
            l.assign_sidb_defect(co(d.at), fiction::sidb_defect{fiction::sidb_defect_type::UNKNOWN, d.charge, d.eps, d.lambda});
        }
        if (sim::chance("removed", 30))  // what is there no longer has no influence
        {
            const auto d = random_sites("removed", 1, 20, 8)[0];
            if (std::none_of(m.defects.begin(), m.defects.end(), [&](const auto& o) { return o.at == d; }))
            {
                l.assign_sidb_defect(co(d), fiction::sidb_defect{fiction::sidb_defect_type::UNKNOWN, -1, 5.6, 5.0});
                l.assign_sidb_defect(co(d), fiction::sidb_defect{fiction::sidb_defect_type::NONE});
            }
        }
    }
    run(m, l);
}
