// S05: operational domains: every parameter point gets the status an evaluation of that point alone gives, whatever the
// worker threads do; each point is evaluated once; the searches cover what they promise and end.
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain_ratio.hpp>

#include <algorithm>
#include <set>
#include <thread>

namespace sim_op
{
// a specification type of our own: argument-dependent lookup picks the scripted evaluation below for it
struct scripted_tt
{
    [[nodiscard]] uint64_t num_vars() const { return 1; }
    [[nodiscard]] uint64_t num_bits() const { return 2; }
};

struct dim
{
    fiction::sweep_parameter what;
    double                   min, step;
    int                      n;
};

struct blob
{
    int  kind;  // 0 box, 1 ball, 2 diagonal
    int  lo[3], hi[3];
    bool carve;
};

struct script
{
    std::vector<dim>                   dims{};
    fiction::sidb_simulation_parameters base{};
    std::vector<blob>                  blobs{};
    int                                noise{0};
    uint64_t                           salt{0};
    size_t                             cost{1};
    std::map<std::vector<int>, int>    calls{};
    std::map<std::vector<int>, int>    ct_calls{};
    std::mutex                         m{};

    bool op(const std::vector<int>& p) const
    {
        bool r = false;
        for (const auto& b : blobs)
        {
            bool   in  = true;
            double acc = 0;
            int    s   = 0;
            for (size_t d = 0; d < p.size(); ++d)
            {
                in &= p[d] >= b.lo[d] && p[d] <= b.hi[d];
                const double c = (b.lo[d] + b.hi[d]) / 2.0, w = (b.hi[d] - b.lo[d]) / 2.0 + 0.5;
                acc += (p[d] - c) * (p[d] - c) / (w * w);
                s += p[d];
            }
            const bool hit = b.kind == 0 ? in : b.kind == 1 ? acc <= 1.0 : in && s % 2 == 0;
            if (hit)
            {
                r = !b.carve;
            }
        }
        if (noise)
        {
            uint64_t h = salt;
            for (const int x : p)
            {
                h = (h ^ static_cast<uint64_t>(x + 1)) * 0x9E3779B97F4A7C15ULL;
                h ^= h >> 29;
            }
            if (static_cast<int>(h % 100) < noise)
            {
                r = !r;
            }
        }
        return r;
    }
    double ct(const std::vector<int>& p) const
    {
        double v = 10;
        for (const int x : p)
        {
            v = v * 7 + x;
        }
        return std::fmod(v, 400.0);
    }
    // the grid point these parameters stand for
    std::vector<int> decode(const fiction::sidb_simulation_parameters& q) const
    {
        std::vector<int> p;
        auto             rest = base;
        for (const auto& d : dims)
        {
            const double v = d.what == fiction::sweep_parameter::EPSILON_R ? q.epsilon_r : d.what == fiction::sweep_parameter::LAMBDA_TF ? q.lambda_tf : q.mu_minus;
            const double k = (v - d.min) / d.step;
            SIM_CHECK(std::fabs(k - std::round(k)) < 1e-4 && std::round(k) >= 0 && std::round(k) < d.n, "off-grid", "a point was evaluated at %g, which is not on the grid of %d values from %g by %g", v,
                      d.n, d.min, d.step);
            p.push_back(static_cast<int>(std::round(k)));
            (d.what == fiction::sweep_parameter::EPSILON_R ? rest.epsilon_r : d.what == fiction::sweep_parameter::LAMBDA_TF ? rest.lambda_tf : rest.mu_minus) = v;
        }
        SIM_CHECK(rest.epsilon_r == q.epsilon_r && rest.lambda_tf == q.lambda_tf && rest.mu_minus == q.mu_minus && rest.base == q.base, "parameters",
                  "a point was evaluated with changed values of parameters that are not swept");
        return p;
    }
};
script* g_script = nullptr;

template <typename Lyt>
std::pair<fiction::operational_status, std::size_t>
is_operational(const std::vector<Lyt>&, const std::vector<scripted_tt>&, const fiction::is_operational_params& ps, const std::vector<fiction::bdl_wire<Lyt>>&,
               const std::vector<fiction::bdl_wire<Lyt>>&, const std::optional<Lyt>&)
{
    std::vector<int> p;
    {
        const sim::quiet q;
        p = g_script->decode(ps.simulation_parameters);
        ++g_script->calls[p];
    }
    // an evaluation takes its time: others may overtake it here
    volatile int spin = 0;
    for (size_t i = 0; i < 3; ++i)
    {
        spin = spin + 1;
    }
    return {g_script->op(p) ? fiction::operational_status::OPERATIONAL : fiction::operational_status::NON_OPERATIONAL, g_script->cost};
}
template <typename Lyt>
double critical_temperature_gate_based(const std::vector<Lyt>&, const std::vector<scripted_tt>&, const fiction::critical_temperature_params& ps,
                                       const std::vector<fiction::bdl_pair<fiction::cell<Lyt>>>&, const std::vector<fiction::bdl_wire<Lyt>>&,
                                       const std::vector<fiction::bdl_wire<Lyt>>&)
{
    const sim::quiet q;
    const auto       p = g_script->decode(ps.operational_params.simulation_parameters);
    ++g_script->ct_calls[p];
    SIM_CHECK(g_script->op(p), "ct-of-nonoperational", "a critical temperature was asked for at a non-operational point");
    return g_script->ct(p);
}
}  // namespace sim_op

namespace kitty
{
template <>
struct is_truth_table<sim_op::scripted_tt> : std::true_type
{};
}  // namespace kitty

namespace
{
using namespace sim_op;
using namespace ref;
using status = fiction::operational_status;

std::string show(const std::vector<int>& p)
{
    std::string s = "(";
    for (const int x : p)
    {
        s += std::to_string(x) + ",";
    }
    s.back() = ')';
    return s;
}

lyt100 tiny_gate()
{
    lyt100 l{};
    using t = fiction::sidb_technology::cell_type;
    l.assign_cell_type({0, 0, 0}, t::INPUT);
    l.assign_cell_type({3, 0, 0}, t::INPUT);
    l.assign_cell_type({6, 0, 0}, t::NORMAL);
    l.assign_cell_type({8, 0, 0}, t::NORMAL);
    l.assign_cell_type({12, 0, 0}, t::OUTPUT);
    l.assign_cell_type({14, 0, 0}, t::OUTPUT);
    l.assign_cell_type({18, 0, 0}, t::NORMAL);
    return l;
}

std::vector<dim> random_dims(size_t k, int maxn, fiction::operational_domain_params& ps)
{
    std::vector<dim>                      r;
    std::vector<fiction::sweep_parameter> w{fiction::sweep_parameter::EPSILON_R, fiction::sweep_parameter::LAMBDA_TF, fiction::sweep_parameter::MU_MINUS};
    ps.sweep_dimensions.clear();
    for (size_t d = 0; d < k; ++d)
    {
        const auto i = static_cast<size_t>(sim::choose("which", 0, static_cast<int64_t>(w.size()) - 1));
        dim        x{};
        x.what = w[i];
        w.erase(w.begin() + static_cast<int64_t>(i));
        x.n    = static_cast<int>(sim::choose("n", 1, maxn));
        x.step = x.what == fiction::sweep_parameter::MU_MINUS ? sim::pick("mu-step", {0.01, 0.005}) : sim::pick("step", {0.1, 0.25, 0.5, 0.05});
        x.min  = x.what == fiction::sweep_parameter::MU_MINUS ? -0.4 : sim::pick("min", {1.0, 4.0, 5.55, 2.0});
        // the maximum lies on the last value or somewhere before the next one
        const double over = sim::pick("over", {0.0, 0.0, 0.3, 0.6, 0.9});
        ps.sweep_dimensions.push_back({x.what, x.min, x.min + x.step * (x.n - 1 + over), x.step});
        r.push_back(x);
    }
    return r;
}

// visits all grid points
template <typename Fn>
void all_points(const std::vector<dim>& dims, Fn fn)
{
    std::vector<int> p(dims.size(), 0);
    for (;;)
    {
        fn(p);
        size_t d = 0;
        while (d < dims.size() && ++p[d] == dims[d].n)
        {
            p[d++] = 0;
        }
        if (d == dims.size())
        {
            return;
        }
    }
}

std::vector<std::vector<int>> moore(const std::vector<dim>& dims, const std::vector<int>& p)
{
    std::vector<std::vector<int>> r;
    size_t                        t = 1;
    for (size_t i = 0; i < p.size(); ++i)
    {
        t *= 3;
    }
    for (size_t k = 0; k < t; ++k)
    {
        auto   q  = p;
        size_t x  = k;
        bool   ok = true;
        for (size_t d = 0; d < p.size(); ++d)
        {
            q[d] += static_cast<int>(x % 3) - 1;
            x /= 3;
            ok &= q[d] >= 0 && q[d] < dims[d].n;
        }
        if (ok && q != p)
        {
            r.push_back(q);
        }
    }
    return r;
}

fiction::parameter_point pp(const std::vector<dim>& dims, const std::vector<int>& p)
{
    std::vector<double> v;
    for (size_t d = 0; d < p.size(); ++d)
    {
        v.push_back(dims[d].min + p[d] * dims[d].step);
    }
    return fiction::parameter_point{v};
}

enum class algo
{
    grid,
    random,
    flood,
    contour
};

// reads the returned domain back, by key and by iteration; returns point -> operational
template <typename Dom>
std::map<std::vector<int>, bool> read(const Dom& dom, const std::vector<dim>& dims)
{
    std::map<std::vector<int>, bool> r;
    all_points(dims,
               [&](const auto& p)
               {
                   const auto v = dom.contains(pp(dims, p));
                   if (v.has_value())
                   {
                       r[p] = std::get<0>(*v) == status::OPERATIONAL;
                   }
               });
    size_t n = 0;
    dom.for_each(
        [&](const auto& key, const auto& val)
        {
            ++n;
            std::vector<int> p;
            for (size_t d = 0; d < dims.size(); ++d)
            {
                p.push_back(static_cast<int>(std::lround((key.get_parameters().at(d) - dims[d].min) / dims[d].step)));
            }
            const auto it = r.find(p);
            SIM_CHECK(it != r.end(), "stray-key", "the domain holds a point %s that cannot be looked up", show(p).c_str());
            SIM_CHECK(it->second == (std::get<0>(val) == status::OPERATIONAL), "torn-value", "iteration and lookup disagree about %s", show(p).c_str());
        });
    SIM_CHECK(n == r.size() && dom.size() == r.size(), "size", "iteration visits %zu points, size() is %zu, %zu can be looked up", n, static_cast<size_t>(dom.size()), r.size());
    SIM_CHECK(dom.empty() == r.empty(), "size", "empty() disagrees with the content");
    SIM_CHECK(dom.get_number_of_dimensions() == dims.size(), "dimensions", "the domain reports %zu dimensions", static_cast<size_t>(dom.get_number_of_dimensions()));
    for (size_t d = 0; d < dims.size(); ++d)
    {
        SIM_CHECK(dom.get_dimension(d) == dims[d].what, "dimensions", "dimension %zu is mislabelled", d);
    }
    for (const auto& [p, o] : r)
    {
        for (const int x : p)
        {
            sim::note(static_cast<uint64_t>(x));
        }
        sim::note(o);
    }
    return r;
}

// what each search promises about the points it evaluated
void promises(algo a, const std::vector<dim>& dims, const std::map<std::vector<int>, bool>& have, size_t samples, const std::function<bool(const std::vector<int>&)>& op,
              const fiction::operational_domain_stats& st, const script* sc)
{
    size_t total = 1;
    for (const auto& d : dims)
    {
        total *= static_cast<size_t>(d.n);
    }
    size_t ops = 0;
    for (const auto& [p, o] : have)
    {
        ops += o;
        SIM_CHECK(o == op(p), "wrong-status", "point %s is reported %soperational, evaluating it alone says otherwise", show(p).c_str(), o ? "" : "non-");
    }
    SIM_CHECK(st.num_total_parameter_points == total, "stats", "%zu parameter points in total, expected %zu", st.num_total_parameter_points, total);
    SIM_CHECK(st.num_evaluated_parameter_combinations == have.size(), "evaluated-count", "%zu evaluations for %zu points", st.num_evaluated_parameter_combinations, have.size());
    SIM_CHECK(st.num_operational_parameter_combinations == ops && st.num_non_operational_parameter_combinations == have.size() - ops, "stats",
              "operational/non-operational counted as %zu/%zu, really %zu/%zu", st.num_operational_parameter_combinations, st.num_non_operational_parameter_combinations, ops,
              have.size() - ops);
    if (sc)
    {
        for (const auto& [p, n] : sc->calls)
        {
            SIM_CHECK(n == 1, "evaluated-twice", "point %s was evaluated %d times", show(p).c_str(), n);
            SIM_CHECK(have.count(p), "lost-point", "point %s was evaluated but is missing from the domain", show(p).c_str());
        }
        SIM_CHECK(st.num_simulator_invocations == have.size() * sc->cost, "stats", "%zu simulator invocations, expected %zu", st.num_simulator_invocations, have.size() * sc->cost);
    }
    if (a == algo::grid)
    {
        SIM_CHECK(have.size() == total, "incomplete", "the grid search covers %zu of %zu points", have.size(), total);
        return;
    }
    if (a == algo::random)
    {
        SIM_CHECK(have.size() <= samples && (samples == 0 || !have.empty()), "samples", "%zu points for %zu samples", have.size(), samples);
        return;
    }
    SIM_CHECK(samples == 0 || !have.empty(), "samples", "no point for %zu samples", samples);
    if (a == algo::flood)
    {
        size_t isolated = 0;
        for (const auto& [p, o] : have)
        {
            bool near = false;
            for (const auto& q : moore(dims, p))
            {
                const auto it = have.find(q);
                if (o)
                {
                    SIM_CHECK(it != have.end(), "flood-incomplete", "%s is operational but its neighbour %s was not evaluated", show(p).c_str(), show(q).c_str());
                }
                near |= it != have.end() && it->second;
            }
            isolated += !near;
        }
        SIM_CHECK(isolated <= samples, "flood-strays", "%zu points without an operational neighbour for %zu samples", isolated, samples);
    }
}

template <typename Dom, typename TT>
Dom compute(algo a, const lyt100& l, const std::vector<TT>& spec, size_t samples, const fiction::operational_domain_params& ps, fiction::operational_domain_stats* st)
{
    if constexpr (std::is_same_v<Dom, fiction::operational_domain>)
    {
        switch (a)
        {
            case algo::grid: return fiction::operational_domain_grid_search(l, spec, ps, st);
            case algo::random: return fiction::operational_domain_random_sampling(l, spec, samples, ps, st);
            case algo::flood: return fiction::operational_domain_flood_fill(l, spec, samples, ps, st);
            default: return fiction::operational_domain_contour_tracing(l, spec, samples, ps, st);
        }
    }
    else
    {
        switch (a)
        {
            case algo::grid: return fiction::critical_temperature_domain_grid_search(l, spec, ps, st);
            case algo::random: return fiction::critical_temperature_domain_random_sampling(l, spec, samples, ps, st);
            case algo::flood: return fiction::critical_temperature_domain_flood_fill(l, spec, samples, ps, st);
            default: return fiction::critical_temperature_domain_contour_tracing(l, spec, samples, ps, st);
        }
    }
}

// every island that was come across has its whole contour evaluated (the algorithms assume that islands have no holes)
void contours(const script& sc, const std::map<std::vector<int>, bool>& have)
{
    const auto                      k = sc.dims.size();
    std::map<std::vector<int>, int> comp;
    int                             islands = 0;
    const auto outside = [&](const std::vector<int>& p)
    {
        for (size_t d = 0; d < k; ++d)
        {
            if (p[d] < 0 || p[d] >= sc.dims[d].n)
            {
                return true;
            }
        }
        return false;
    };
    const auto faces = [&](const std::vector<int>& p)
    {
        std::vector<std::vector<int>> r;
        for (size_t d = 0; d < k; ++d)
        {
            for (const int s : {-1, 1})
            {
                r.push_back(p);
                r.back()[d] += s;
            }
        }
        return r;
    };
    all_points(sc.dims,
               [&](const auto& s)
               {
                   if (!sc.op(s) || comp.count(s))
                   {
                       return;
                   }
                   std::vector<std::vector<int>> todo{s};
                   comp[s] = islands;
                   while (!todo.empty())
                   {
                       const auto p = todo.back();
                       todo.pop_back();
                       for (const auto& q : moore(sc.dims, p))
                       {
                           if (sc.op(q) && comp.emplace(q, islands).second)
                           {
                               todo.push_back(q);
                           }
                       }
                   }
                   ++islands;
               });
    // holes: points that cannot leave the grid without crossing an island
    for (int c = 0; c < islands; ++c)
    {
        std::set<std::vector<int>>    free;
        std::vector<std::vector<int>> todo;
        const auto                    in = [&](const std::vector<int>& p)
        {
            const auto it = comp.find(p);
            return it != comp.end() && it->second == c;
        };
        size_t size = 0, total = 0;
        all_points(sc.dims,
                   [&](const auto& p)
                   {
                       ++total;
                       size += in(p);
                       const auto f = faces(p);
                       if (!in(p) && std::any_of(f.begin(), f.end(), outside) && free.insert(p).second)
                       {
                           todo.push_back(p);
                       }
                   });
        while (!todo.empty())
        {
            const auto p = todo.back();
            todo.pop_back();
            for (const auto& q : faces(p))
            {
                if (!outside(q) && !in(q) && free.insert(q).second)
                {
                    todo.push_back(q);
                }
            }
        }
        if (free.size() + size != total)
        {
            sim::probe("contour-with-holes");
            return;
        }
    }
    std::set<int> met;
    for (const auto& [p, o] : have)
    {
        if (o)
        {
            met.insert(comp.at(p));
        }
    }
    for (const auto& [p, c] : comp)
    {
        const auto f = faces(p);
        if (met.count(c) && std::any_of(f.begin(), f.end(), [&](const auto& q) { return outside(q) || !sc.op(q); }))
        {
            SIM_CHECK(have.count(p), "contour-gap", "an island was come across but its contour point %s was not evaluated", show(p).c_str());
        }
    }
    sim::probe("contours", static_cast<int64_t>(met.size()));
}

template <typename Dom>
void scripted(script& sc, algo a, fiction::operational_domain_params& ps, size_t samples, bool solid)
{
    const auto                       l = tiny_gate();
    fiction::operational_domain_stats st{};
    const auto                       dom = compute<Dom>(a, l, std::vector<scripted_tt>(1), samples, ps, &st);
    const sim::quiet                 q;
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    const auto have = read(dom, sc.dims);
    promises(a, sc.dims, have, samples, [&](const auto& p) { return sc.op(p); }, st, &sc);
    if constexpr (std::is_same_v<Dom, fiction::critical_temperature_domain>)
    {
        double lo = std::numeric_limits<double>::infinity(), hi = 0;
        for (const auto& [p, o] : have)
        {
            const double v = std::get<1>(*dom.contains(pp(sc.dims, p)));
            SIM_CHECK(v == (o ? sc.ct(p) : 0.0), "wrong-ct", "critical temperature at %s is %g, expected %g", show(p).c_str(), v, o ? sc.ct(p) : 0.0);
            if (o)
            {
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
        }
        SIM_CHECK(dom.minimum_ct() == lo && dom.maximum_ct() == hi, "ct-extremes", "extremes are %g/%g, expected %g/%g", dom.minimum_ct(), dom.maximum_ct(), lo, hi);
        for (const auto& [p, n] : sc.ct_calls)
        {
            SIM_CHECK(n == 1, "evaluated-twice", "the critical temperature of %s was determined %d times", show(p).c_str(), n);
        }
    }
    if (a == algo::contour)
    {
        contours(sc, have);
    }
    sim::probe("points", static_cast<int64_t>(have.size()));
    if (ps.number_of_threads > 1 && have.size() > 1)
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
}

void random_script(script& sc, fiction::operational_domain_params& ps, size_t k, int maxn, bool solid)
{
    sc.dims                                     = random_dims(k, maxn, ps);
    ps.operational_params.simulation_parameters = fiction::sidb_simulation_parameters{2, -0.31, 5.4, 4.8};
    sc.base                                     = ps.operational_params.simulation_parameters;
    ps.number_of_threads                        = static_cast<size_t>(sim::choose("threads", 0, 6));
    sc.cost                                     = static_cast<size_t>(sim::choose("cost", 0, 3));
    const auto nb                               = solid ? 1 : sim::choose("blobs", 0, 4);
    for (int64_t i = 0; i < nb; ++i)
    {
        blob b{};
        b.kind  = solid ? 0 : sim::pick("kind", {0, 0, 1, 2});
        b.carve = i > 0 && sim::chance("carve", 40);
        for (size_t d = 0; d < k; ++d)
        {
            const int n = sc.dims[d].n;
            b.lo[d]     = static_cast<int>(sim::choose("lo", 0, n - 1));
            b.hi[d]     = static_cast<int>(sim::choose("hi", b.lo[d], n - 1));
            if (solid && b.hi[d] == b.lo[d])
            {
                if (b.hi[d] + 1 < n)
                {
                    ++b.hi[d];
                }
                else if (b.lo[d] > 0)
                {
                    --b.lo[d];
                }
                else
                {
                    sim::discard("degenerate grid");
                }
            }
        }
        sc.blobs.push_back(b);
    }
    if (!solid && sim::chance("noisy", 30))
    {
        sc.noise = static_cast<int>(sim::choose("noise", 1, 50));
        sc.salt  = sim::bits("salt");
    }
    phmap::shim_salt_ref() = sim::bits("hash-salt");
}
}  // namespace

SIM_SCENARIO(scripted, 6)
{
    script                             sc{};
    fiction::operational_domain_params ps{};
    algo                               a{};
    size_t                             samples = 0;
    bool                               ct = false, solid = false;
    {
        const sim::quiet q;
        a            = static_cast<algo>(sim::choose("algo", 0, 3));
        const auto k = static_cast<size_t>(a == algo::flood || a == algo::contour ? sim::choose("dims2", 2, 3) : sim::choose("dims1", 1, 3));
        solid        = a == algo::contour && sim::chance("solid", 50);
        random_script(sc, ps, k, k == 3 ? 5 : k == 2 ? 9 : 30, solid);
        samples = static_cast<size_t>(sim::pick<int64_t>("samples", {0, 1, 2, 3, 5, 10, 25}));
        ct      = sim::chance("ct", 25);
        sim::describe("algo=%d dims=%zu threads=%zu samples=%zu ct=%d blobs=%zu noise=%d", (int)a, k, ps.number_of_threads, samples, ct, sc.blobs.size(), sc.noise);
    }
    g_script = &sc;
    ct ? scripted<fiction::critical_temperature_domain>(sc, a, ps, samples, solid) : scripted<fiction::operational_domain>(sc, a, ps, samples, solid);
}

// several callers compute domains of their own at the same time
SIM_SCENARIO(callers, 1)
{
    script                             sc{};
    fiction::operational_domain_params ps{};
    {
        const sim::quiet q;
        random_script(sc, ps, 2, 5, false);
        ps.number_of_threads = static_cast<size_t>(sim::choose("t", 1, 2));
        sim::describe("callers blobs=%zu", sc.blobs.size());
        sim::nontrivial();
    }
    g_script = &sc;
    std::vector<std::thread> ts;
    const auto               n = sim::choose("callers", 2, 3);
    for (int64_t i = 0; i < n; ++i)
    {
        ts.emplace_back(
            [&, i]
            {
                const auto a       = static_cast<algo>(sim::choose("algo", 0, 3));
                const auto samples = static_cast<size_t>(sim::choose("samples", 1, 6));
                const auto l       = tiny_gate();
                fiction::operational_domain_stats st{};
                const auto       dom = compute<fiction::operational_domain>(a, l, std::vector<scripted_tt>(1), samples, ps, &st);
                const sim::quiet q;
                promises(a, sc.dims, read(dom, sc.dims), samples, [&](const auto& p) { return sc.op(p); }, st, nullptr);
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
}

// the ratio counts exactly the operational region around the given point
SIM_SCENARIO(ratio, 2)
{
    script                             sc{};
    fiction::operational_domain_params ps{};
    random_script(sc, ps, static_cast<size_t>(sim::choose("k", 2, 3)), 5, false);
    std::vector<int> at;
    for (const auto& d : sc.dims)
    {
        at.push_back(static_cast<int>(sim::choose("at", 0, d.n - 1)));
    }
    sim::describe("ratio dims=%zu threads=%zu blobs=%zu", sc.dims.size(), ps.number_of_threads, sc.blobs.size());
    if (ps.number_of_threads > 1 && sc.op(at))
    {
        sim::nontrivial();
    }
    g_script         = &sc;
    const auto       l = tiny_gate();
    const double     r = fiction::operational_domain_ratio(l, std::vector<scripted_tt>(1), pp(sc.dims, at), fiction::operational_domain_ratio_params{ps});
    const sim::quiet q;
    size_t           total = 0;
    all_points(sc.dims, [&](const auto&) { ++total; });
    std::set<std::vector<int>>    region;
    std::vector<std::vector<int>> todo;
    if (sc.op(at))
    {
        region.insert(at);
        todo.push_back(at);
    }
    while (!todo.empty())
    {
        const auto p = todo.back();
        todo.pop_back();
        for (const auto& n : moore(sc.dims, p))
        {
            if (sc.op(n) && region.insert(n).second)
            {
                todo.push_back(n);
            }
        }
    }
    SIM_CHECK(r == static_cast<double>(region.size()) / static_cast<double>(total), "ratio", "the ratio is %g, the region around %s has %zu of %zu points", r, show(at).c_str(), region.size(), total);
    for (const auto& [p, n] : sc.calls)
    {
        SIM_CHECK(n == 1, "evaluated-twice", "point %s was evaluated %d times", show(p).c_str(), n);
        const auto nb = moore(sc.dims, p);
        SIM_CHECK(p == at || std::any_of(nb.begin(), nb.end(), [&](const auto& x) { return region.count(x); }), "flood-strays", "point %s was evaluated though the region does not touch it", show(p).c_str());
    }
    sim::probe("ratio");
}

// unusable parameters are refused before anything runs
SIM_SCENARIO(refused, 1)
{
    script                             sc{};
    fiction::operational_domain_params ps{};
    random_script(sc, ps, static_cast<size_t>(sim::choose("k", 1, 3)), 4, false);
    g_script     = &sc;
    const auto a = static_cast<algo>(sim::choose("algo", 0, 3));
    const auto d = static_cast<size_t>(sim::choose("bad-dim", 0, static_cast<int64_t>(sc.dims.size()) - 1));
    switch (sim::choose("why", 0, 3))
    {
        case 0: ps.sweep_dimensions[d].step = sim::pick("bad-step", {0.0, -0.1}); break;
        case 1: ps.sweep_dimensions[d].max = ps.sweep_dimensions[d].min - 0.5; break;
        case 2: ps.operational_params.strategy_to_analyze_operational_status = fiction::is_operational_params::operational_analysis_strategy::FILTER_ONLY; break;
        default:
            if (a == algo::grid || a == algo::random)
            {
                sim::discard("any number of dimensions is fine");
            }
            ps.sweep_dimensions.resize(1);
            break;
    }
    sim::describe("refused algo=%d", (int)a);
    const auto l     = tiny_gate();
    bool       threw = false;
    const auto n0    = sim::threads_started();
    try
    {
        (void)compute<fiction::operational_domain>(a, l, std::vector<scripted_tt>(1), 3, ps, nullptr);
    }
    catch (const std::invalid_argument&)
    {
        threw = true;
    }
    SIM_CHECK(threw && sc.calls.empty() && sim::threads_started() == n0, "not-refused", "invalid parameters were accepted");
}

// the real gate evaluation: the same status as when each point is evaluated alone
SIM_SCENARIO(gate, 1)
{
    fiction::operational_domain_params ps{};
    std::vector<dim>                   dims;
    std::vector<fiction::is_operational_params> each;
    algo                               a{};
    size_t                             samples = 0;
    lyt100                             l{};
    {
        const sim::quiet q;
        a    = static_cast<algo>(sim::choose("algo", 0, 3));
        dims = random_dims(a == algo::flood || a == algo::contour ? 2 : static_cast<size_t>(sim::choose("k", 1, 2)), 3, ps);
        for (size_t d = 0; d < dims.size(); ++d)
        {
            // coarse steps so that the status changes within the grid
            if (dims[d].what != fiction::sweep_parameter::MU_MINUS)
            {
                dims[d].step                = sim::pick("coarse", {1.0, 2.0, 3.0});
                dims[d].min                 = sim::pick("from", {1.0, 2.0, 4.0});
                ps.sweep_dimensions[d].step = dims[d].step;
                ps.sweep_dimensions[d].min  = dims[d].min;
                ps.sweep_dimensions[d].max  = dims[d].min + dims[d].step * (dims[d].n - 1);
            }
            else
            {
                dims[d].step                = 0.06;
                ps.sweep_dimensions[d].step = dims[d].step;
                ps.sweep_dimensions[d].max  = dims[d].min + dims[d].step * (dims[d].n - 1);
            }
        }
        samples = static_cast<size_t>(sim::choose("samples", 1, 6));
        l       = tiny_gate();
        if (sim::chance("logic", 40))
        {
            l.assign_cell_type({6, 0, 0}, fiction::sidb_technology::cell_type::LOGIC);
            l.assign_cell_type({8, 0, 0}, fiction::sidb_technology::cell_type::LOGIC);
            sim::probe("canvas");
        }
        auto& op                 = ps.operational_params;
        op.simulation_parameters = fiction::sidb_simulation_parameters{2, sim::pick("mu", {-0.32, -0.28, -0.25}), 5.6, 5.0};
        op.sim_engine            = sim::pick("engine", {fiction::sidb_simulation_engine::QUICKEXACT, fiction::sidb_simulation_engine::EXGS, fiction::sidb_simulation_engine::CLUSTERCOMPLETE});
        op.op_condition          = sim::pick("kinks", {fiction::is_operational_params::operational_condition::TOLERATE_KINKS, fiction::is_operational_params::operational_condition::REJECT_KINKS});
        op.strategy_to_analyze_operational_status =
            sim::pick("strategy", {fiction::is_operational_params::operational_analysis_strategy::SIMULATION_ONLY, fiction::is_operational_params::operational_analysis_strategy::SIMULATION_ONLY,
                                   fiction::is_operational_params::operational_analysis_strategy::FILTER_THEN_SIMULATION});
        op.input_bdl_iterator_params.input_bdl_config = sim::pick("encoding", {fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED,
                                                                               fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED});
        ps.number_of_threads = static_cast<size_t>(sim::choose("threads", 1, 4));
        sim::set_hardware_concurrency(static_cast<unsigned>(sim::choose("cores", 1, 2)));
        sim::describe("gate algo=%d dims=%zu threads=%zu engine=%d", (int)a, dims.size(), ps.number_of_threads, (int)op.sim_engine);
    }
    std::vector<kitty::dynamic_truth_table> spec(1, kitty::dynamic_truth_table(1));
    if (sim::chance("invert", 20))
    {
        kitty::create_from_binary_string(spec[0], "01");
    }
    else
    {
        kitty::create_from_binary_string(spec[0], "10");
    }
    fiction::operational_domain_stats st{};
    const auto                       dom = compute<fiction::operational_domain>(a, l, spec, samples, ps, &st);
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    const sim::quiet q;
    const auto       have = read(dom, dims);
    promises(
        a, dims, have, samples,
        [&](const std::vector<int>& p)
        {
            auto op = ps.operational_params;
            for (size_t d = 0; d < p.size(); ++d)
            {
                const double v = dims[d].min + p[d] * dims[d].step;
                (dims[d].what == fiction::sweep_parameter::EPSILON_R ? op.simulation_parameters.epsilon_r :
                 dims[d].what == fiction::sweep_parameter::LAMBDA_TF ? op.simulation_parameters.lambda_tf :
                                                                       op.simulation_parameters.mu_minus) = v;
            }
            return fiction::is_operational(l, spec, op).first == status::OPERATIONAL;
        },
        st, nullptr);
    for (const auto& [p, o] : have)
    {
        sim::probe(o ? "gate-operational" : "gate-non-operational");
    }
    if (ps.number_of_threads > 1)
    {
        sim::nontrivial();
    }
}

// the shared result map: additions, look-ups and counts by several threads are linearisable
SIM_SCENARIO(domain_map, 2)
{
    using map_t = fiction::sidb_simulation_domain<fiction::parameter_point, int, int>;
    map_t      m{};
    const auto threads = static_cast<int>(sim::choose("threads", 2, 4));
    const auto keys    = static_cast<int>(sim::choose("keys", 1, 4));
    struct op
    {
        int      kind, key, val;
        uint64_t from, to;
        int      got;  // value read, -1 none; size
    };
    std::vector<std::vector<op>> hist(static_cast<size_t>(threads));
    int                          val = 0;
    phmap::shim_salt_ref()           = sim::bits("hash-salt");
    for (auto& h : hist)
    {
        const auto n = sim::choose("ops", 1, 4);
        for (int64_t i = 0; i < n; ++i)
        {
            h.push_back({static_cast<int>(sim::choose("op", 0, 2)), static_cast<int>(sim::choose("key", 0, keys - 1)), ++val, 0, 0, -1});
        }
    }
    sim::describe("domain map threads=%d keys=%d", threads, keys);
    sim::nontrivial();
    const auto key = [](int k) { return fiction::parameter_point{std::vector<double>{5.0 + 0.1 * k, -0.3}}; };
    std::atomic<uint64_t>    seq{1};
    std::vector<std::thread> ts;
    for (auto& h : hist)
    {
        ts.emplace_back(
            [&]
            {
                for (auto& o : h)
                {
                    o.from = seq++;
                    if (o.kind == 0)
                    {
                        m.add_value(key(o.key), {o.val, -o.val});
                    }
                    else if (o.kind == 1)
                    {
                        const auto r = m.contains(key(o.key));
                        o.got        = r ? std::get<0>(*r) : -1;
                        SIM_CHECK(!r || std::get<1>(*r) == -o.got, "torn-value", "a look-up returned a mixture of two values");
                    }
                    else
                    {
                        o.got = static_cast<int>(m.size());
                    }
                    o.to = seq++;
                }
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    const sim::quiet q;
    std::vector<op>  ops;
    for (const auto& h : hist)
    {
        ops.insert(ops.end(), h.begin(), h.end());
    }
    // keys are independent of each other: look-ups and additions are checked per key by search (first addition wins)
    for (int k = 0; k < keys; ++k)
    {
        std::vector<op> s;
        std::copy_if(ops.begin(), ops.end(), std::back_inserter(s), [&](const auto& o) { return o.kind < 2 && o.key == k; });
        std::set<std::pair<uint32_t, int>> dead;
        const auto fin = m.contains(key(k));
        std::function<bool(uint32_t, int)> go = [&](uint32_t done, int cur) -> bool
        {
            if (done == (1u << s.size()) - 1)
            {
                return cur == (fin ? std::get<0>(*fin) : -1);
            }
            if (!dead.insert({done, cur}).second)
            {
                return false;
            }
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (done >> i & 1)
                {
                    continue;
                }
                bool ready = true;
                for (size_t j = 0; j < s.size(); ++j)
                {
                    ready &= (done >> j & 1) || j == i || s[j].to > s[i].from;
                }
                if (!ready)
                {
                    continue;
                }
                if (s[i].kind == 1 ? s[i].got == cur && go(done | 1u << i, cur) : go(done | 1u << i, cur == -1 ? s[i].val : cur))
                {
                    return true;
                }
            }
            return false;
        };
        SIM_CHECK(go(0, -1), "not-linearisable", "the history of key %d has no sequential explanation", k);
    }
    // counts lie between the keys certainly added before and those possibly added by the end of the call
    for (const auto& o : ops)
    {
        if (o.kind == 2)
        {
            std::set<int> lo, hi;
            for (const auto& x : ops)
            {
                if (x.kind == 0)
                {
                    if (x.to < o.from)
                    {
                        lo.insert(x.key);
                    }
                    if (x.from < o.to)
                    {
                        hi.insert(x.key);
                    }
                }
            }
            SIM_CHECK(o.got >= static_cast<int>(lo.size()) && o.got <= static_cast<int>(hi.size()), "size", "size() returned %d, possible are %zu to %zu", o.got, lo.size(), hi.size());
        }
    }
}
