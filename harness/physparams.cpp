// S07: physically valid parameters: the grid points at which a given charge distribution is physically valid, with its number
// among the energy levels there, whatever the worker threads do.
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/physically_valid_parameters.hpp>

#include <algorithm>
#include <set>

namespace
{
using namespace ref;
using cds_t = fiction::charge_distribution_surface<lyt100>;

struct dim
{
    fiction::sweep_parameter what;
    double                   min, step;
    int                      n;
};

double& field(model& m, fiction::sweep_parameter w)
{
    return w == fiction::sweep_parameter::EPSILON_R ? m.eps : w == fiction::sweep_parameter::LAMBDA_TF ? m.lambda : m.mu;
}

std::vector<dim> random_dims(fiction::operational_domain_params& ps, size_t most)
{
    std::vector<dim>                      r;
    std::vector<fiction::sweep_parameter> w{fiction::sweep_parameter::EPSILON_R, fiction::sweep_parameter::LAMBDA_TF, fiction::sweep_parameter::MU_MINUS};
    const auto                            k = sim::choose("dims", 1, 3);
    size_t                                total = 1;
    ps.sweep_dimensions.clear();
    for (int64_t d = 0; d < k; ++d)
    {
        const auto i = static_cast<size_t>(sim::choose("which", 0, static_cast<int64_t>(w.size()) - 1));
        dim        x{};
        x.what = w[i];
        w.erase(w.begin() + static_cast<int64_t>(i));
        x.n    = static_cast<int>(sim::choose("n", 1, std::max<int64_t>(1, std::min<int64_t>(8, static_cast<int64_t>(most / total)))));
        total *= static_cast<size_t>(x.n);
        x.step = x.what == fiction::sweep_parameter::MU_MINUS ? sim::pick("mu-step", {0.02, 0.05}) : sim::pick("step", {0.3, 0.5, 1.0, 2.0});
        x.min  = x.what == fiction::sweep_parameter::MU_MINUS ? -0.4 : sim::pick("min", {1.0, 3.0, 5.55});
        ps.sweep_dimensions.push_back({x.what, x.min, x.min + x.step * (x.n - 1 + sim::pick("over", {0.0, 0.3, 0.6})), x.step});
        r.push_back(x);
    }
    return r;
}

void run(bool callers_share)
{
    model                              m{};
    std::vector<dim>                   dims;
    fiction::operational_domain_params ps{};
    unsigned                           base = 2;
    std::vector<int>                   given;
    std::vector<std::vector<double>>   points;
    std::vector<model>                 at;
    lyt100                             l{};
    {
        const sim::quiet q;
        m.sites  = random_sites("site", static_cast<int>(sim::choose("sidbs", 1, 6)), static_cast<int>(sim::choose("w", 1, 14)), static_cast<int>(sim::choose("h", 0, 4)), sim::chance("pairs", 40));
        m.mu     = sim::pick("mu", {-0.32, -0.28, -0.25});
        m.eps    = sim::pick("eps", {5.6, 4.0});
        m.lambda = sim::pick("lambda", {5.0, 2.0});
        dims     = random_dims(ps, callers_share ? 6 : 16);
        base     = static_cast<unsigned>(sim::choose("base", 2, 3));
        ps.operational_params.sim_engine =
            sim::pick("engine", {fiction::sidb_simulation_engine::QUICKEXACT, fiction::sidb_simulation_engine::EXGS, fiction::sidb_simulation_engine::QUICKEXACT, fiction::sidb_simulation_engine::EXGS,
                                 fiction::sidb_simulation_engine::QUICKSIM});
        if (ps.operational_params.sim_engine == fiction::sidb_simulation_engine::QUICKSIM)
        {
            base = 2;
            if (m.n() > 4)
            {
                m.sites.resize(4);
            }
        }
        ps.operational_params.simulation_parameters = params_of(m, base);
        ps.number_of_threads                        = static_cast<size_t>(sim::choose("threads", 0, 6));
        place(l, m.sites);
        std::vector<size_t> ix(dims.size(), 0);
        for (;;)
        {
            auto                x = m;
            std::vector<double> p;
            for (size_t d = 0; d < dims.size(); ++d)
            {
                p.push_back(dims[d].min + static_cast<double>(ix[d]) * dims[d].step);
                field(x, dims[d].what) = p.back();
            }
            x.finish();
            points.push_back(p);
            at.push_back(x);
            size_t d = 0;
            while (d < dims.size() && ++ix[d] == static_cast<size_t>(dims[d].n))
            {
                ix[d++] = 0;
            }
            if (d == dims.size())
            {
                break;
            }
        }
        // mostly a charge distribution that is valid somewhere on the grid
        const auto w = at[static_cast<size_t>(sim::choose("where", 0, static_cast<int64_t>(at.size()) - 1))].enumerate(base);
        if (!w.empty() && sim::chance("valid-somewhere", 85))
        {
            for (const char c : std::next(w.begin(), sim::choose("state", 0, static_cast<int64_t>(w.size()) - 1))->first)
            {
                given.push_back(c == '-' ? -1 : c == '+' ? 1 : 0);
            }
        }
        else
        {
            for (size_t i = 0; i < m.n(); ++i)
            {
                given.push_back(static_cast<int>(sim::choose("charge", -1, base == 3 ? 1 : 0)));
            }
        }
        sim::describe("n=%zu %s given=%s base=%u points=%zu threads=%zu engine=%d", m.n(), text(m).c_str(), model::key(given).c_str(), base, points.size(), ps.number_of_threads,
                      (int)ps.operational_params.sim_engine);
    }
    cds_t cds{l, ps.operational_params.simulation_parameters};
    for (size_t i = 0; i < m.n(); ++i)
    {
        cds.assign_charge_state(co(m.sites[i]), given[i] < 0 ? fiction::sidb_charge_state::NEGATIVE : given[i] > 0 ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL);
    }
    cds.update_after_charge_change();

    const auto judge = [&](const auto& dom, const cds_t& after)
    {
        const sim::quiet q;
        size_t           hits = 0;
        for (size_t k = 0; k < points.size(); ++k)
        {
            const auto have = dom.contains(fiction::parameter_point{points[k]});
            const auto v    = at[k].check(given);
            hits += have.has_value();
            SIM_CHECK(!have || v != verdict::invalid, "invalid-point", "parameter point %zu is reported though the charge distribution is not physically valid there", k);
            if (v != verdict::valid)
            {
                continue;
            }
            sim::probe("valid-point");
            const auto   all = at[k].enumerate(base);
            const double e   = at[k].energy(given);
            // the number of energy levels below, with a band for levels that (almost) coincide or are borderline
            std::vector<double> es;
            size_t              most = 0;
            for (const auto& [s, verd] : all)
            {
                std::vector<int> c;
                for (const char x : s)
                {
                    c.push_back(x == '-' ? -1 : x == '+' ? 1 : 0);
                }
                const double f = at[k].energy(c);
                most += c != given && f < e + 3e-6;
                if (verd == verdict::valid && f < e - 3e-6)
                {
                    es.push_back(f);
                }
            }
            std::sort(es.begin(), es.end());
            size_t least = 0;
            for (size_t i = 0; i < es.size(); ++i)
            {
                least += i == 0 || es[i] - es[i - 1] > 3e-6;
            }
            if (ps.operational_params.sim_engine == fiction::sidb_simulation_engine::QUICKSIM)
            {
                least = 0;  // a heuristic may miss states, the given one included
            }
            else
            {
                SIM_CHECK(have.has_value(), "missing-point", "the charge distribution is physically valid at parameter point %zu, which is not reported", k);
            }
            if (have)
            {
                const auto n = std::get<0>(*have);
                SIM_CHECK(n >= least && n <= most, "excited-state", "at parameter point %zu the charge distribution is reported as excited state %llu, expected %zu to %zu", k, (unsigned long long)n, least,
                          most);
                sim::probe(n ? "excited" : "ground");
                sim::note(n);
            }
        }
        SIM_CHECK(dom.size() == hits, "stray-key", "%zu points are reported, %zu of them on the grid", static_cast<size_t>(dom.size()), hits);
        SIM_CHECK(charges(after, m) == given, "charges-changed", "the given charge distribution has other charges afterwards");
        sim::note(hits);
    };
    if (ps.number_of_threads > 1 && points.size() > 1)
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
    if (!callers_share)
    {
        const auto dom = fiction::physically_valid_parameters(cds, ps);
        SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
        judge(dom, cds);
        return;
    }
    // two callers with charge distribution surfaces of their own over the same layout
    std::vector<std::thread> ts;
    std::vector<cds_t>       own(2, cds);
    for (size_t i = 0; i < 2; ++i)
    {
        ts.emplace_back(
            [&, i]
            {
                const auto dom = fiction::physically_valid_parameters(own[i], ps);
                judge(dom, own[i]);
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    sim::nontrivial();
}
}  // namespace

SIM_SCENARIO(grid, 4)
{
    run(false);
}
SIM_SCENARIO(callers, 1)
{
    run(true);
}
