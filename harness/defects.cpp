// S09: defect influence: every defect position gets the status that judging it alone gives, on any schedule.
#include "gate.hpp"

#include <fiction/algorithms/iter/bdl_input_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>

#include <deque>
#include <map>
#include <mutex>
#include <thread>

using spot = std::pair<int, int>;

namespace sim_op
{
// a specification whose operational status under a defect is a function of the position of the defect
struct scripted_tt
{
    uint64_t num_vars() const { return 1; }
    uint64_t num_bits() const { return 2; }
};
struct script
{
    int                       x0 = 0, y0 = 0, w = 1, h = 1;
    std::vector<char>         bad;
    std::map<spot, int>       calls;
    std::vector<spot>         order;
    bool influential(const spot& p) const { return bad[static_cast<size_t>((p.second - y0) * w + p.first - x0)] != 0; }
    bool inside(const spot& p) const { return p.first >= x0 && p.first < x0 + w && p.second >= y0 && p.second < y0 + h; }
};
script* g_script = nullptr;

template <typename Lyt>
std::pair<fiction::operational_status, std::size_t> is_operational(const Lyt& l, const std::vector<scripted_tt>&, const fiction::is_operational_params&)
{
    bool r = false;
    {
        const sim::quiet q;
        spot             p{};
        size_t           n = 0;
        l.foreach_sidb_defect(
            [&](const auto& cd)
            {
                p = {static_cast<int>(cd.first.x), static_cast<int>(cd.first.y)};
                ++n;
            });
        SIM_CHECK(n == 1, "defects", "a layout with %zu defects was evaluated", n);
        SIM_CHECK(g_script->inside(p), "outside", "a defect at (%d,%d) outside of the scanned area was evaluated", p.first, p.second);
        ++g_script->calls[p];
        g_script->order.push_back(p);
        r = g_script->influential(p);
    }
    volatile int spin = 0;
    for (size_t i = 0; i < 3; ++i)
    {
        spin = spin + 1;
    }
    return {r ? fiction::operational_status::NON_OPERATIONAL : fiction::operational_status::OPERATIONAL, 1};
}
}  // namespace sim_op
namespace kitty
{
template <>
struct is_truth_table<sim_op::scripted_tt> : std::true_type
{};
}  // namespace kitty

namespace
{
using namespace gates;
using namespace sim_op;
using lyt      = fiction::sidb_lattice<fiction::sidb_100_lattice, cube_base>;
using params_t = fiction::defect_influence_params<fiction::cell<lyt>>;
using st_t     = fiction::defect_influence_status;
enum class algo { grid, random, trace };

site to_site(int x, int y)
{
    return {x, y >> 1, y & 1};
}

struct area
{
    int x0, y0, x1, y1;
    size_t size() const { return static_cast<size_t>((x1 - x0 + 1) * (y1 - y0 + 1)); }
};
area scanned(const lyt& l, const params_t& ps)
{
    area a{1 << 20, 1 << 20, -(1 << 20), -(1 << 20)};
    l.foreach_cell(
        [&](const auto& c)
        {
            a.x0 = std::min<int>(a.x0, c.x);
            a.x1 = std::max<int>(a.x1, c.x);
            a.y0 = std::min<int>(a.y0, c.y);
            a.y1 = std::max<int>(a.y1, c.y);
        });
    a.x0 -= ps.additional_scanning_area.x;
    a.x1 += ps.additional_scanning_area.x;
    a.y0 -= ps.additional_scanning_area.y;
    a.y1 += ps.additional_scanning_area.y;
    return a;
}
std::map<spot, st_t> read(const fiction::defect_influence_domain<lyt>& d)
{
    std::map<spot, st_t> r;
    d.for_each([&](const auto& c, const auto& v) { SIM_CHECK(r.emplace(spot{(int)c.x, (int)c.y}, std::get<0>(v)).second, "twice", "a position is reported twice"); });
    return r;
}

// what all three algorithms promise; influential: 1 yes, 0 no, -1 undecided
template <typename Fn>
void promises(algo a, const area& ar, const lyt& l, const std::map<spot, st_t>& have, size_t step, size_t samples, const fiction::defect_influence_stats& st, Fn influential)
{
    size_t hit = 0;
    for (const auto& [p, s] : have)
    {
        SIM_CHECK(p.first >= ar.x0 && p.first <= ar.x1 && p.second >= ar.y0 && p.second <= ar.y1, "outside", "(%d,%d) lies outside of the scanned area", p.first, p.second);
        const bool occupied = !l.is_empty_cell({p.first, p.second});
        const int  want     = occupied ? 0 : influential(p);
        SIM_CHECK(want < 0 || (s == st_t::INFLUENTIAL) == (want == 1), "wrong-status", "a defect at (%d,%d) is reported %s", p.first, p.second, s == st_t::INFLUENTIAL ? "influential" : "not influential");
        hit += s == st_t::INFLUENTIAL;
    }
    if (a == algo::grid)
    {
        size_t n = 0;
        for (int y = ar.y0; y <= ar.y1; ++y)
        {
            for (int x = ar.x0; x <= ar.x1; ++x)
            {
                if (std::abs(x) % static_cast<int>(step) == 0 && std::abs(y) % static_cast<int>(step) == 0)
                {
                    ++n;
                    SIM_CHECK(have.count({x, y}) == 1, "missing", "(%d,%d) is missing in the grid", x, y);
                }
            }
        }
        SIM_CHECK(have.size() == n, "stray", "%zu positions are reported, the grid has %zu", have.size(), n);
    }
    if (a == algo::random)
    {
        const auto want = std::min(samples, ar.size());
        SIM_CHECK(have.size() == want, "sample-count", "%zu positions are reported, %zu expected", have.size(), want);
    }
    SIM_CHECK(st.num_influencing_defect_positions == hit && st.num_non_influencing_defect_positions == have.size() - hit, "count", "%zu/%zu positions are counted, %zu/%zu are reported",
              static_cast<size_t>(st.num_influencing_defect_positions), static_cast<size_t>(st.num_non_influencing_defect_positions), hit, have.size() - hit);
    SIM_CHECK(st.num_evaluated_defect_positions >= have.size(), "evaluated-count", "%zu evaluations are counted, %zu positions are reported", static_cast<size_t>(st.num_evaluated_defect_positions),
              have.size());
    sim::note(have.size());
    sim::note(hit);
}

fiction::defect_influence_domain<lyt> compute(algo a, const lyt& l, const std::vector<scripted_tt>* s, const std::vector<kitty::dynamic_truth_table>* t, size_t step, size_t samples, const params_t& ps,
                                              fiction::defect_influence_stats* st)
{
    const auto go = [&](const auto&... spec)
    {
        return a == algo::grid ? fiction::defect_influence_grid_search(l, spec..., ps, step, st) :
               a == algo::random ? fiction::defect_influence_random_sampling(l, spec..., samples, ps, st) :
                                   fiction::defect_influence_quicktrace(l, spec..., samples, ps, st);
    };
    return s ? go(*s) : t ? go(*t) : go();
}

void scripted_job(script& sc, lyt& l, params_t& ps, int most)
{
    const sim::quiet q;
    const int        n = static_cast<int>(sim::choose("sidbs", 1, 3));
    const int        ox = static_cast<int>(sim::choose("ox", -3, 6)), oy = static_cast<int>(sim::choose("oy", -3, 6));
    for (int i = 0; i < n; ++i)
    {
        l.assign_cell_type({ox + static_cast<int>(sim::choose("x", 0, 3)), oy + static_cast<int>(sim::choose("y", 0, 2))}, cell_t::NORMAL);
    }
    ps.defect                   = fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9};
    ps.additional_scanning_area = {static_cast<int>(sim::choose("ax", 0, most)), static_cast<int>(sim::choose("ay", 0, most))};
    ps.number_of_threads        = static_cast<size_t>(sim::choose("threads", 0, 6));
    const auto ar               = scanned(l, ps);
    sc.x0                       = ar.x0;
    sc.y0                       = ar.y0;
    sc.w                        = ar.x1 - ar.x0 + 1;
    sc.h                        = ar.y1 - ar.y0 + 1;
    sc.bad.assign(ar.size(), 0);
    for (int64_t b = 0, nb = sim::choose("blobs", 0, 3); b < nb; ++b)
    {
        const int  lx = static_cast<int>(sim::choose("lx", 0, sc.w - 1)), ly = static_cast<int>(sim::choose("ly", 0, sc.h - 1));
        const int  hx = static_cast<int>(sim::choose("hx", lx, sc.w - 1)), hy = static_cast<int>(sim::choose("hy", ly, sc.h - 1));
        const int  kind = sim::pick("kind", {0, 0, 1, 2});
        const bool carve = b > 0 && sim::chance("carve", 40);
        for (int y = ly; y <= hy; ++y)
        {
            for (int x = lx; x <= hx; ++x)
            {
                const double dx = hx > lx ? (2.0 * (x - lx) / (hx - lx) - 1) : 0, dy = hy > ly ? (2.0 * (y - ly) / (hy - ly) - 1) : 0;
                if (kind == 0 || (kind == 1 && dx * dx + dy * dy <= 1.0) || (kind == 2 && (x + y) % 2 == 0))
                {
                    sc.bad[static_cast<size_t>(y * sc.w + x)] = !carve;
                }
            }
        }
    }
    if (const int64_t noise = sim::pick("noise", {0, 0, 0, 5, 30}); noise)
    {
        for (auto& b : sc.bad)
        {
            b = b != (sim::choose("flip", 0, 99) < noise);
        }
    }
}

// the contour of the region that the first row searched runs into, on the side the search comes from: the region hangs together by
// faces and corners, what surrounds it by faces, and what lies beyond the edge of the area belongs to the surroundings
void contour(const script& sc, const lyt& l, const std::map<spot, st_t>& have)
{
    const auto bad = [&](const spot& p) { return sc.inside(p) && l.is_empty_cell({p.first, p.second}) && sc.influential(p); };
    if (sc.order.empty() || sc.order.front().first != sc.x0 || bad(sc.order.front()))
    {
        return;
    }
    spot at = sc.order.front();
    while (sc.inside(at) && !bad(at))
    {
        ++at.first;
    }
    if (!sc.inside(at))
    {
        return;
    }
    std::set<spot>   reg{at}, out{{at.first - 1, at.second}};
    std::deque<spot> todo{at};
    while (!todo.empty())
    {
        const auto p = todo.front();
        todo.pop_front();
        for (int dy = -1; dy <= 1; ++dy)
        {
            for (int dx = -1; dx <= 1; ++dx)
            {
                const spot o{p.first + dx, p.second + dy};
                if (bad(o) && reg.insert(o).second)
                {
                    todo.push_back(o);
                }
            }
        }
    }
    const spot faces[] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    todo.push_back(*out.begin());
    while (!todo.empty())
    {
        const auto p = todo.front();
        todo.pop_front();
        for (const auto& [dx, dy] : faces)
        {
            const spot o{p.first + dx, p.second + dy};
            if (o.first >= sc.x0 - 1 && o.first <= sc.x0 + sc.w && o.second >= sc.y0 - 1 && o.second <= sc.y0 + sc.h && !bad(o) && out.insert(o).second)
            {
                todo.push_back(o);
            }
        }
    }
    sim::probe("contours");
    for (const auto& p : reg)
    {
        for (const auto& [dx, dy] : faces)
        {
            const spot o{p.first + dx, p.second + dy};
            if (out.count(o))
            {
                SIM_CHECK(have.count(p) && (!sc.inside(o) || have.count(o)), "contour-gap", "the contour between (%d,%d) and (%d,%d) is missing", p.first, p.second, o.first, o.second);
            }
        }
    }
}
}  // namespace

SIM_SCENARIO(scripted, 6)
{
    script   sc{};
    lyt      l{};
    params_t ps{};
    const auto a = static_cast<algo>(sim::choose("algo", 0, 2));
    scripted_job(sc, l, ps, a == algo::trace ? 6 : 4);
    const auto ar      = scanned(l, ps);
    const auto step    = static_cast<size_t>(sim::choose("step", 1, 3));
    const auto samples = static_cast<size_t>(sim::choose("samples", 0, a == algo::trace ? 4 : 40));
    g_script           = &sc;
    sim::describe("algo=%d area=%dx%d threads=%zu step=%zu samples=%zu", (int)a, sc.w, sc.h, (size_t)ps.number_of_threads, step, samples);
    fiction::defect_influence_stats st{};
    const std::vector<scripted_tt>  spec(1);
    const auto                      dom = compute(a, l, &spec, nullptr, step, samples, ps, &st);
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    const sim::quiet q;
    const auto       have = read(dom);
    promises(a, ar, l, have, step, samples, st, [&](const spot& p) { return static_cast<int>(sc.influential(p)); });
    for (const auto& [p, n] : sc.calls)
    {
        SIM_CHECK(n == 1, "evaluated-twice", "the defect at (%d,%d) was evaluated %d times", p.first, p.second, n);
    }
    if (a == algo::trace)
    {
        contour(sc, l, have);
        sim::nontrivial();
    }
    if (ps.number_of_threads > 1 && have.size() > 1 && a != algo::trace)
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
}

namespace
{
// 1: the ground state changes, 0: it does not, -1: numerically undecided
int ground_state_changes(model m, const defect& d)
{
    std::set<std::string> gs[2];
    for (int k = 0; k < 2; ++k)
    {
        if (k)
        {
            m.defects.push_back(d);
        }
        m.finish();
        std::vector<std::pair<double, std::string>> all;
        double                                      best = 1e9;
        for (const auto& [s, v] : m.enumerate(2))
        {
            std::vector<int> c;
            for (const char x : s)
            {
                c.push_back(x == '-' ? -1 : 0);
            }
            if (v != verdict::valid)
            {
                return -1;
            }
            all.emplace_back(m.energy(c), s);
            best = std::min(best, all.back().first);
        }
        for (const auto& [e, s] : all)  // equal energies: several ground states
        {
            if (e - best < 1e-7)
            {
                gs[k].insert(s);
            }
            else if (e - best < 3e-6)
            {
                return -1;
            }
        }
        if (gs[k].size() > 1)
        {
            sim::probe("degenerate");
        }
    }
    return gs[0] != gs[1];
}

struct physical_job
{
    algo     a{};
    lyt      l{};
    params_t ps{};
    size_t   step = 1, samples = 1;
    bool     gate = false;
    std::vector<kitty::dynamic_truth_table> spec;
    std::map<spot, int>                     want;
    area                                    ar{};

    void make(bool small)
    {
        const sim::quiet q;
        a       = static_cast<algo>(sim::choose("algo", 0, 2));
        gate    = !small && sim::chance("gate", 25);
        step    = static_cast<size_t>(sim::choose("step", 1, 2));
        samples = static_cast<size_t>(sim::choose("samples", 1, a == algo::trace ? 2 : 12));
        ps.defect = sim::pick("defect", {fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}, fiction::sidb_defect{fiction::sidb_defect_type::UNKNOWN, 1, 5.6, 5.0},
                                         fiction::sidb_defect{fiction::sidb_defect_type::ARSENIC, 1, 9.7, 2.1}});
        ps.number_of_threads = static_cast<size_t>(sim::choose("threads", 0, 4));
        model m{};
        if (gate)
        {
            spec = spec1(sim::chance("invert", 50));
            random_gate_params<lyt>(ps.operational_params, false);
            ps.influence_def = sim::chance("operational", 60) ? params_t::influence_definition::OPERATIONALITY_CHANGE : params_t::influence_definition::GROUND_STATE_CHANGE;
            const int gap    = static_cast<int>(sim::choose("gap", 5, 8));
            l.assign_cell_type({0, 0}, cell_t::INPUT);
            l.assign_cell_type({3, 0}, cell_t::INPUT);
            l.assign_cell_type({6, 0}, cell_t::NORMAL);
            l.assign_cell_type({8, 0}, cell_t::NORMAL);
            l.assign_cell_type({8 + gap, 0}, cell_t::OUTPUT);
            l.assign_cell_type({10 + gap, 0}, cell_t::OUTPUT);
            l.assign_cell_type({14 + gap, 0}, cell_t::NORMAL);
            ps.additional_scanning_area = {static_cast<int>(sim::choose("ax", 0, 2)), static_cast<int>(sim::choose("ay", 0, 1))};
            step                        = static_cast<size_t>(sim::choose("coarse", 2, 4));
            if (a == algo::trace)
            {
                a = algo::random;  // the trace visits more positions than this can afford
            }
        }
        else
        {
            ps.influence_def = params_t::influence_definition::GROUND_STATE_CHANGE;
            m.sites          = random_sites("site", static_cast<int>(sim::choose("sidbs", 1, 4)), static_cast<int>(sim::choose("w", 1, 6)), 1, sim::chance("pairs", 50));
            for (const auto& s : m.sites)
            {
                l.assign_cell_type({s.x, 2 * s.y + s.z}, cell_t::NORMAL);
            }
            m.mu                                        = sim::pick("mu", {-0.32, -0.28, -0.25});
            m.lambda                                    = sim::pick("lambda", {5.0, 2.0});
            ps.operational_params.simulation_parameters = params_of(m, 2);
            const auto w                                = small ? 2 : 4;
            ps.additional_scanning_area                 = {static_cast<int>(sim::choose("ax", 0, w)), static_cast<int>(sim::choose("ay", 0, w))};
        }
        ar = scanned(l, ps);
        if (ar.size() > 150)
        {
            sim::discard("too large");
        }
        // every position alone
        for (int y = ar.y0; y <= ar.y1; ++y)
        {
            for (int x = ar.x0; x <= ar.x1; ++x)
            {
                if (!l.is_empty_cell({x, y}) || (a == algo::grid && (std::abs(x) % static_cast<int>(step) || std::abs(y) % static_cast<int>(step))))
                {
                    continue;
                }
                fiction::sidb_defect_surface<lyt> with{l.clone()};
                with.assign_sidb_defect({x, y}, ps.defect);
                const defect d{to_site(x, y), static_cast<int>(ps.defect.charge), ps.defect.epsilon_r, ps.defect.lambda_tf};
                int          w = 0;
                if (ps.influence_def == params_t::influence_definition::OPERATIONALITY_CHANGE)
                {
                    w = !operational(with, spec, ps.operational_params);
                }
                else if (!gate)
                {
                    w = fiction::can_positive_charges_occur(with, ps.operational_params.simulation_parameters) ? 1 : ground_state_changes(m, d);
                }
                else
                {
                    fiction::bdl_input_iterator<lyt> bii{l, ps.operational_params.input_bdl_iterator_params};
                    for (int i = 0; i < 2 && w != 1; ++i, ++bii)
                    {
                        const lyt&                        p = *bii;
                        fiction::sidb_defect_surface<lyt> pd{p.clone()};
                        if (!p.is_empty_cell({x, y}))
                        {
                            continue;
                        }
                        pd.assign_sidb_defect({x, y}, ps.defect);
                        model k{};
                        k.mu     = ps.operational_params.simulation_parameters.mu_minus;
                        k.eps    = ps.operational_params.simulation_parameters.epsilon_r;
                        k.lambda = ps.operational_params.simulation_parameters.lambda_tf;
                        p.foreach_cell([&](const auto& c) { k.sites.push_back(to_site(c.x, c.y)); });
                        const int one = fiction::can_positive_charges_occur(pd, ps.operational_params.simulation_parameters) ? 1 : ground_state_changes(k, d);
                        w             = one == 0 ? w : one;
                    }
                }
                want[{x, y}] = w;
            }
        }
        sim::describe("physical algo=%d gate=%d def=%d area=%zu threads=%zu step=%zu samples=%zu", (int)a, gate, (int)ps.influence_def, ar.size(), (size_t)ps.number_of_threads, step, samples);
    }
    void run(bool alone)
    {
        fiction::defect_influence_stats st{};
        const auto                      dom = compute(a, l, nullptr, gate ? &spec : nullptr, step, samples, ps, &st);
        if (alone)
        {
            SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
        }
        const sim::quiet q;
        const auto       have = read(dom);
        promises(a, ar, l, have, step, samples, st,
                 [&](const spot& p)
                 {
                     const auto i = want.find(p);
                     if (i != want.end() && i->second >= 0)
                     {
                         sim::probe(i->second ? "influential" : "not-influential");
                     }
                     return i == want.end() ? -1 : i->second;
                 });
        if ((ps.number_of_threads > 1 && have.size() > 1 && a != algo::trace) || !alone)
        {
            sim::nontrivial();
        }
    }
};
}  // namespace

SIM_SCENARIO(physical, 3)
{
    physical_job j{};
    j.make(false);
    j.run(true);
}
SIM_SCENARIO(callers, 2)
{
    std::vector<physical_job> js(2);
    for (auto& j : js)
    {
        j.make(true);
    }
    std::vector<std::thread> ts;
    for (auto& j : js)
    {
        ts.emplace_back([&j] { j.run(false); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
}
