// S10: displacement robustness: every displaced layout is a permitted one and has the status that judging it alone gives.
#include "gate.hpp"

#include <fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp>

#include <cmath>
#include <map>
#include <thread>

namespace sim_op
{
// a specification whose operational status is a hash of where the SiDBs (and defects) of a layout are
struct scripted_tt
{
    uint64_t num_vars() const { return 1; }
    uint64_t num_bits() const { return 2; }
};
thread_local uint64_t  t_salt = 0;
uint64_t               g_salt = 0;
int64_t                g_good = 50;
std::set<uint64_t>     g_always;
std::atomic<size_t>    g_calls{0};

template <typename Lyt>
uint64_t digest(const Lyt& l)
{
    std::set<std::string> s;
    l.foreach_cell([&](const auto& c) { s.insert("c" + std::to_string(c.x) + "," + std::to_string(c.y) + "," + std::to_string(c.z) + "," + std::to_string((int)l.get_cell_type(c))); });
    if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
    {
        l.foreach_sidb_defect([&](const auto& cd) { s.insert("d" + std::to_string(cd.first.x) + "," + std::to_string(cd.first.y) + "," + std::to_string(cd.first.z)); });
    }
    uint64_t h = 1469598103934665603ull ^ g_salt;
    for (const auto& k : s)
    {
        for (const char c : k)
        {
            h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ull;
        }
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
    }
    return h;
}
template <typename Lyt>
bool good(const Lyt& l)
{
    const auto d = digest(l);
    return g_always.count(d) || static_cast<int64_t>(d % 100) < g_good;
}
template <typename Lyt>
std::pair<fiction::operational_status, std::size_t> is_operational(const Lyt& l, const std::vector<scripted_tt>&, const fiction::is_operational_params&)
{
    bool r = false;
    {
        const sim::quiet q;
        r = good(l);
    }
    volatile int spin = 0;
    for (int i = 0; i < 3; ++i)
    {
        spin = spin + 1;
    }
    return {r ? fiction::operational_status::OPERATIONAL : fiction::operational_status::NON_OPERATIONAL, 1};
}
}  // namespace sim_op
namespace kitty
{
template <>
struct is_truth_table<sim_op::scripted_tt> : std::true_type
{};
}  // namespace kitty

namespace
{
using namespace gates;
using namespace sim_op;
template <typename C>
using on        = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<C>>>>;
using l_siqad   = on<fiction::siqad::coord_t>;
using l_cube    = on<fiction::cube::coord_t>;
using l_offset  = on<fiction::offset::ucoord_t>;
using l_surface = fiction::sidb_defect_surface<l_siqad>;

// rows of atoms: two per dimer
template <typename Lyt>
fiction::coordinate<Lyt> at(int x, int row)
{
    if constexpr (fiction::has_siqad_coord_v<Lyt>)
    {
        return {x, (row >> 1), row & 1};
    }
    else
    {
        return {x, row};
    }
}
template <typename Lyt>
std::pair<int, int> spot_of(const fiction::coordinate<Lyt>& c)
{
    if constexpr (fiction::has_siqad_coord_v<Lyt>)
    {
        return {(int)c.x, 2 * (int)c.y + (int)c.z};
    }
    else
    {
        return {(int)c.x, (int)c.y};
    }
}
using key = std::vector<std::tuple<int, int, int>>;  // row, x, type: sorted
template <typename Lyt>
key key_of(const Lyt& l)
{
    key k;
    l.foreach_cell(
        [&](const auto& c)
        {
            const auto s = spot_of<Lyt>(c);
            k.emplace_back(s.second, s.first, (int)l.get_cell_type(c));
        });
    std::sort(k.begin(), k.end());
    return k;
}

template <typename Lyt, typename TT>
struct job
{
    using params_t = fiction::displacement_robustness_domain_params<fiction::cell<Lyt>>;
    Lyt                      l{};
    params_t                 ps{};
    std::vector<TT>          spec;
    double                   rate      = 0;
    bool                     fabricate = false;
    std::vector<std::pair<int, int>> where;  // in the order of foreach_cell
    std::vector<int>                 type;

    bool judge(const Lyt& d) const
    {
        if constexpr (std::is_same_v<TT, scripted_tt>)
        {
            return good(d);
        }
        else
        {
            return operational(d, spec, ps.operational_params);
        }
    }
    void finish()
    {
        ps.displacement_variations = {sim::pick<uint64_t>("dx", {0, 1, 1, 2}), sim::pick<uint64_t>("dy", {0, 0, 1, 1, 2})};
        ps.dimer_policy            = sim::chance("stay", 50) ? params_t::dimer_displacement_policy::STAY_ON_ORIGINAL_DIMER : params_t::dimer_displacement_policy::ALLOW_OTHER_DIMER;
        ps.number_of_threads       = static_cast<size_t>(sim::choose("threads", 0, 5));
        if (sim::chance("random", 35))
        {
            ps.analysis_mode                            = params_t::displacement_analysis_mode::RANDOM;
            ps.percentage_of_analyzed_displaced_layouts = sim::pick("percentage", {0.0, 0.01, 0.1, 0.3, 0.5, 1.0});
        }
        l.foreach_cell(
            [&](const auto& c)
            {
                where.push_back(spot_of<Lyt>(c));
                type.push_back((int)l.get_cell_type(c));
            });
    }
    // the positions SiDB i may take
    std::vector<std::pair<int, int>> range(size_t i, bool fixed) const
    {
        const auto [x, y] = where[i];
        int x0 = x, x1 = x, y0 = y, y1 = y;
        if (!fixed)
        {
            const int dx = (int)ps.displacement_variations.first, dy = (int)ps.displacement_variations.second;
            x0 -= dx;
            x1 += dx;
            if (dy > 0 && ps.dimer_policy == params_t::dimer_displacement_policy::STAY_ON_ORIGINAL_DIMER)
            {
                y0 = y & ~1;
                y1 = y0 + 1;
            }
            else
            {
                y0 -= dy;
                y1 += dy;
            }
            if constexpr (fiction::has_offset_ucoord_v<Lyt>)
            {
                x0 = std::max(x0, 0);
                y0 = std::max(y0, 0);
            }
        }
        std::vector<std::pair<int, int>> r;
        for (int b = y0; b <= y1; ++b)
        {
            for (int a = x0; a <= x1; ++a)
            {
                r.emplace_back(a, b);
            }
        }
        return r;
    }
    Lyt place(const key& k) const
    {
        Lyt d{};
        for (const auto& [y, x, t] : k)
        {
            d.assign_cell_type(at<Lyt>(x, y), static_cast<typename Lyt::cell_type>(t));
        }
        if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
        {
            l.foreach_sidb_defect([&](const auto& cd) { d.assign_sidb_defect(cd.first, cd.second); });
        }
        return d;
    }
    // every permitted layout and in how many ways it arises; returns the number of all ways, colliding ones included
    size_t enumerate(const std::set<size_t>& fixed, std::map<key, size_t>& m) const
    {
        std::vector<std::vector<std::pair<int, int>>> r;
        size_t                                        n = 1;
        for (size_t i = 0; i < where.size(); ++i)
        {
            r.push_back(range(i, fixed.count(i) > 0));
            n *= r.back().size();
        }
        if (n > 600)
        {
            sim::discard("too many displacements");
        }
        for (size_t k = 0; k < n; ++k)
        {
            key                           c;
            std::set<std::pair<int, int>> seen;
            size_t                        v = k;
            for (size_t i = 0; i < r.size(); ++i)
            {
                const auto& p = r[i][v % r[i].size()];
                v /= r[i].size();
                seen.insert(p);
                c.emplace_back(p.second, p.first, type[i]);
            }
            if (seen.size() == where.size())
            {
                std::sort(c.begin(), c.end());
                ++m[c];
            }
        }
        return n;
    }
    void run(bool alone)
    {
        std::set<size_t>      fixed;
        std::map<key, size_t> want;
        std::map<key, bool>   status;
        size_t                all = 0;
        const bool            exhaustive = ps.analysis_mode == params_t::displacement_analysis_mode::EXHAUSTIVE;
        double                expect     = -1;
        {
            const sim::quiet q;
            if (!fabricate)
            {
                for (size_t i = 0; i < where.size(); ++i)
                {
                    if (ps.fixed_sidbs.count(at<Lyt>(where[i].first, where[i].second)))
                    {
                        fixed.insert(i);
                    }
                }
                all = enumerate(fixed, want);
            }
            else
            {
                // every choice of the SiDBs that are misplaced
                const size_t k = static_cast<size_t>(static_cast<double>(where.size()) * std::min(1.0, rate));
                if (rate >= std::numeric_limits<double>::epsilon() && k == 0)
                {
                    sim::discard("no SiDB is misplaced");
                }
                size_t good_ones = 0, total = 0;
                for (size_t mask = 0; mask < (size_t{1} << where.size()); ++mask)
                {
                    if (static_cast<size_t>(__builtin_popcountll(mask)) != k)
                    {
                        continue;
                    }
                    fixed.clear();
                    for (size_t i = 0; i < where.size(); ++i)
                    {
                        if (!(mask >> i & 1))
                        {
                            fixed.insert(i);
                        }
                    }
                    std::map<key, size_t> m;
                    enumerate(fixed, m);
                    for (const auto& [c, n] : m)
                    {
                        auto j = status.find(c);
                        if (j == status.end())
                        {
                            j = status.emplace(c, judge(place(c))).first;
                        }
                        total += n;
                        good_ones += j->second ? n : 0;
                    }
                }
                expect = rate < std::numeric_limits<double>::epsilon() ? 1.0 : static_cast<double>(good_ones) / static_cast<double>(total);
            }
        }
        if (fabricate)
        {
            const double have = fiction::determine_probability_of_fabricating_operational_gate(l, spec, ps, rate);
            if (alone)
            {
                SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
            }
            SIM_CHECK(have >= 0 && have <= 1, "not-a-probability", "the probability of fabricating a working gate is %g", have);
            if (exhaustive)
            {
                SIM_CHECK(std::fabs(have - expect) < 1e-9, "probability", "the probability of fabricating a working gate at error rate %g is %.12g, not %.12g", rate, expect, have);
            }
            sim::probe(have > 0 && have < 1 ? "some-work" : "all-or-none-work");
            sim::note(static_cast<uint64_t>(have * 1e6));
            sim::nontrivial();
            return;
        }
        fiction::displacement_robustness_domain_stats st{};
        const auto                                    dom = fiction::determine_displacement_robustness_domain(l, spec, ps, &st);
        if (alone)
        {
            SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
        }
        const sim::quiet      q;
        std::map<key, size_t> have;
        size_t                ops = 0;
        for (const auto& [d, s] : dom.operational_values)
        {
            const auto k = key_of(d);
            SIM_CHECK(want.count(k) == 1, "not-permitted", "a layout was analyzed that no permitted displacement leads to");
            SIM_CHECK(++have[k] <= want[k], "twice", "a displaced layout is reported %zu times, %zu displacements lead to it", have[k], want[k]);
            auto j = status.find(k);
            if (j == status.end())
            {
                j = status.emplace(k, judge(place(k))).first;
            }
            const bool op = s == fiction::operational_status::OPERATIONAL;
            SIM_CHECK(op == j->second, "wrong-status", "a displaced layout is reported %s", op ? "operational" : "not operational");
            ops += op;
        }
        const size_t n = dom.operational_values.size();
        if (exhaustive)
        {
            for (const auto& [k, c] : want)
            {
                SIM_CHECK(have[k] == c, "missing", "a permitted displacement is missing: %zu of %zu", have[k], c);
            }
        }
        else
        {
            const auto most = std::max<size_t>(1, static_cast<size_t>(static_cast<double>(all) * ps.percentage_of_analyzed_displaced_layouts));
            SIM_CHECK(n >= 1 && n <= most, "sample-count", "%zu of %zu displaced layouts were analyzed, at least 1 and at most %zu were asked for", n, all, most);
            bool collisions = false;
            size_t valid = 0;
            for (const auto& [k, c] : want)
            {
                valid += c;
            }
            collisions = valid != all;
            SIM_CHECK(collisions || n == most, "sample-count", "%zu displaced layouts were analyzed, %zu were asked for", n, most);
        }
        SIM_CHECK(st.num_operational_sidb_displacements == ops && st.num_non_operational_sidb_displacements == n - ops, "count", "%zu/%zu layouts are counted, %zu/%zu are reported",
                  static_cast<size_t>(st.num_operational_sidb_displacements), static_cast<size_t>(st.num_non_operational_sidb_displacements), ops, n - ops);
        sim::probe(ops && ops < n ? "some-work" : "all-or-none-work");
        sim::note(n);
        sim::note(ops);
        if ((ps.number_of_threads > 1 && n > 1) || !alone)
        {
            sim::probe("parallel");
            sim::nontrivial();
        }
    }
};

template <typename Lyt>
void with_defects(Lyt& l)
{
    if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
    {
        for (int64_t i = 0, n = sim::choose("defects", 0, 2); i < n; ++i)
        {
            l.assign_sidb_defect({static_cast<int>(sim::choose("fx", -8, 30)), static_cast<int>(sim::choose("fy", 6, 9)), 0},
                                 fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, static_cast<double>(sim::choose("lambda", 2, 6))});
        }
    }
}

template <typename Lyt>
void scripted_run()
{
    job<Lyt, scripted_tt> j{};
    {
        const sim::quiet q;
        const int        n = static_cast<int>(sim::pick("sidbs", {1, 2, 2, 3, 4}));
        const int        ox = static_cast<int>(sim::choose("ox", fiction::has_offset_ucoord_v<Lyt> ? 0 : -4, 4)), oy = static_cast<int>(sim::choose("oy", fiction::has_offset_ucoord_v<Lyt> ? 0 : -4, 4));
        for (int i = 0; i < n; ++i)
        {
            const auto c = at<Lyt>(ox + static_cast<int>(sim::choose("x", 0, 5)), oy + static_cast<int>(sim::choose("y", 0, 5)));
            j.l.assign_cell_type(c, sim::pick("type", {cell_t::NORMAL, cell_t::NORMAL, cell_t::INPUT, cell_t::OUTPUT}));
            if (sim::chance("fixed", 35))
            {
                j.ps.fixed_sidbs.insert(c);
            }
        }
        with_defects(j.l);
        j.finish();
        j.spec.resize(1);
        j.fabricate = sim::chance("fabricate", 30);
        j.rate      = sim::pick("rate", {1.0, 0.5, 0.34, 0.0, -0.1, 1.5, 0.25, 0.75});
        g_salt      = static_cast<uint64_t>(sim::choose("salt", 0, 1 << 30));
        g_good      = sim::pick("good", {0, 20, 50, 80, 100});
        g_always    = {digest(j.l)};
        sim::describe("scripted sidbs=%zu dx=%d dy=%d stay=%d mode=%d pct=%g fixed=%zu fabricate=%d rate=%g threads=%zu", j.where.size(), (int)j.ps.displacement_variations.first,
                      (int)j.ps.displacement_variations.second, (int)j.ps.dimer_policy, (int)j.ps.analysis_mode, j.ps.percentage_of_analyzed_displaced_layouts, j.ps.fixed_sidbs.size(), j.fabricate, j.rate,
                      (size_t)j.ps.number_of_threads);
    }
    j.run(true);
}
}  // namespace

SIM_SCENARIO(scripted, 6)
{
    switch (sim::choose("coordinates", 0, 3))
    {
        case 0: scripted_run<l_siqad>(); break;
        case 1: scripted_run<l_cube>(); break;
        case 2: scripted_run<l_offset>(); break;
        default: scripted_run<l_surface>(); break;
    }
}

namespace
{
template <typename Lyt>
void physical_make(job<Lyt, kitty::dynamic_truth_table>& j)
{
    const sim::quiet q;
    const int        o   = fiction::has_offset_ucoord_v<Lyt> ? 2 : 0;
    using t              = cell_t;
    const std::tuple<int, t> cells[] = {{0, t::INPUT}, {3, t::INPUT}, {6, t::NORMAL}, {8, t::NORMAL}, {12, t::NORMAL}, {14, t::NORMAL}, {18, t::OUTPUT}, {20, t::OUTPUT}, {24, t::NORMAL}};
    int                      loose   = 0;
    for (const auto& [x, ty] : cells)
    {
        const auto c = at<Lyt>(x + o, o);
        j.l.assign_cell_type(c, ty);
        if (loose >= 2 || sim::chance("fixed", 75))
        {
            j.ps.fixed_sidbs.insert(c);
        }
        else
        {
            ++loose;
        }
    }
    with_defects(j.l);
    j.spec = spec1(false);
    random_gate_params<Lyt>(j.ps.operational_params, false);
    j.ps.operational_params.simulation_parameters = fiction::sidb_simulation_parameters{2, sim::pick("mu-", {-0.32, -0.32, -0.3}), 5.6, 5.0};
    j.ps.operational_params.op_condition          = fiction::is_operational_params::operational_condition::TOLERATE_KINKS;
    j.ps.operational_params.sim_engine            = fiction::sidb_simulation_engine::QUICKEXACT;
    j.ps.operational_params.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params = {0.2, 2.0};
    j.finish();
    j.ps.displacement_variations.first  = std::min<uint64_t>(j.ps.displacement_variations.first, 1);
    j.ps.displacement_variations.second = std::min<uint64_t>(j.ps.displacement_variations.second, 1);
    if (!operational(j.l, j.spec, j.ps.operational_params))
    {
        sim::discard("the original is not operational");
    }
    sim::describe("physical dx=%d dy=%d stay=%d mode=%d threads=%zu", (int)j.ps.displacement_variations.first, (int)j.ps.displacement_variations.second, (int)j.ps.dimer_policy, (int)j.ps.analysis_mode,
                  (size_t)j.ps.number_of_threads);
}
template <typename Lyt>
void physical_run()
{
    job<Lyt, kitty::dynamic_truth_table> j{};
    physical_make(j);
    sim::probe("physical");
    j.run(true);
}
}  // namespace

SIM_SCENARIO(physical, 3)
{
    switch (sim::choose("coordinates", 0, 3))
    {
        case 0: physical_run<l_siqad>(); break;
        case 1: physical_run<l_cube>(); break;
        case 2: physical_run<l_offset>(); break;
        default: physical_run<l_surface>(); break;
    }
}
SIM_SCENARIO(callers, 1)
{
    std::vector<job<l_siqad, kitty::dynamic_truth_table>> js(2);
    for (auto& j : js)
    {
        physical_make(j);
    }
    std::vector<std::thread> ts;
    for (auto& j : js)
    {
        ts.emplace_back([&j] { j.run(false); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
}
