// S08: the gate designer returns operational gates only, all of them when asked for all, on any schedule.
#include "gate.hpp"

#include <fiction/algorithms/physical_design/design_sidb_gates.hpp>

#include <map>
#include <thread>

namespace
{
using namespace gates;

enum class mode { quickcell, exhaustive, random, pruning };

// a wire whose middle is left open for the canvas
template <typename Lyt>
Lyt skeleton(int gap, bool prefilled)
{
    Lyt l{};
    l.assign_cell_type({0, 0, 0}, cell_t::INPUT);
    l.assign_cell_type({3, 0, 0}, cell_t::INPUT);
    l.assign_cell_type({6, 0, 0}, cell_t::NORMAL);
    l.assign_cell_type({8, 0, 0}, cell_t::NORMAL);
    const int o = 8 + gap;
    l.assign_cell_type({o, 0, 0}, cell_t::OUTPUT);
    l.assign_cell_type({o + 2, 0, 0}, cell_t::OUTPUT);
    l.assign_cell_type({o + 6, 0, 0}, cell_t::NORMAL);
    if (prefilled)
    {
        l.assign_cell_type({8 + gap / 2, 1, 0}, cell_t::LOGIC);
    }
    return l;
}

template <typename Lyt>
struct job
{
    using params_t = fiction::design_sidb_gates_params<fiction::cell<Lyt>>;
    mode                                    md{};
    Lyt                                     skel{};
    params_t                                ps{};
    std::vector<kitty::dynamic_truth_table> spec;
    std::vector<fiction::siqad::coord_t>    spots;
    std::map<placed, size_t>                expect;      // operational gates and how often the designer meets them
    std::set<placed>                        candidates;  // all layouts with the given number of canvas SiDBs
    size_t                                  combos = 0, borderline = 0;
    bool                                    all = false, usable = true;
    std::vector<std::pair<fiction::siqad::coord_t, fiction::sidb_defect>> defects;

    // mostly a job with something to find
    void make()
    {
        const sim::quiet q;
        const bool       any = sim::chance("any", 25);
        for (int i = 0; i < 8; ++i)
        {
            *this = job{};
            draw();
            if (usable && ((any && md != mode::random) || !expect.empty()))
            {
                break;
            }
        }
        if (!usable || (md == mode::random && expect.empty()))
        {
            sim::discard("nothing to find");  // random design is documented to search until it finds a gate
        }
        sim::describe("mode=%d all=%d canvas=%zu k=%zu combos=%zu operational=%zu engine=%d kinks=%d", (int)md, all, spots.size(), (size_t)ps.number_of_canvas_sidbs, combos, expect.size(),
                      (int)ps.operational_params.sim_engine, (int)ps.operational_params.op_condition);
    }

    void draw()
    {
        md   = sim::pick("mode", {mode::quickcell, mode::exhaustive, mode::exhaustive, mode::quickcell, mode::random, mode::pruning});
        const int gap = static_cast<int>(sim::choose("gap", 5, 10));
        skel = skeleton<Lyt>(gap, sim::chance("prefilled", 15));
        if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
        {
            for (int64_t i = 0, n = sim::choose("defects", 1, 3); i < n; ++i)
            {
                const fiction::siqad::coord_t at{static_cast<int>(sim::choose("at", 0, 30)), sim::chance("above", 50) ? -3 : 4, 0};
                const auto                    d = sim::pick("defect", {fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}, fiction::sidb_defect{fiction::sidb_defect_type::UNKNOWN, 1, 5.6, 5.0},
                                                                       fiction::sidb_defect{fiction::sidb_defect_type::SILOXANE}});
                skel.assign_sidb_defect(at, d);
            }
            skel.foreach_sidb_defect([&](const auto& cd) { defects.push_back(cd); });
        }
        random_gate_params<Lyt>(ps.operational_params, md == mode::exhaustive || md == mode::random);
        if (md == mode::quickcell || md == mode::pruning)
        {
            // what the caller sets here is the designer's business in these modes
            using S = fiction::is_operational_params::operational_analysis_strategy;
            ps.operational_params.strategy_to_analyze_operational_status = sim::pick("strategy", {S::SIMULATION_ONLY, S::FILTER_ONLY, S::FILTER_THEN_SIMULATION});
            if (sim::chance("no-kinks", 70))
            {
                ps.operational_params.op_condition = fiction::is_operational_params::operational_condition::REJECT_KINKS;
            }
        }
        spec  = spec1(sim::chance("invert", 50));
        all   = sim::chance("all", 60);
        using P = params_t;
        ps.termination_cond = all ? P::termination_condition::ALL_COMBINATIONS_ENUMERATED : P::termination_condition::AFTER_FIRST_SOLUTION;
        ps.design_mode      = md == mode::quickcell ? P::design_sidb_gates_mode::QUICKCELL : md == mode::exhaustive ? P::design_sidb_gates_mode::AUTOMATIC_EXHAUSTIVE_GATE_DESIGNER :
                              md == mode::random    ? P::design_sidb_gates_mode::RANDOM :
                                                      P::design_sidb_gates_mode::PRUNING_ONLY;
        // the canvas: a row between wire and output, or a block beside it
        const int w  = static_cast<int>(sim::choose("w", 1, 3));
        const int x0 = static_cast<int>(sim::choose("x", 9, std::max(9, 8 + gap - w)));
        const int y0 = static_cast<int>(sim::choose("y", 0, 1));
        const bool block = sim::chance("block", 50);
        ps.canvas = {{x0, y0, 0}, {x0 + w - 1, y0, block ? 1 : 0}};
        for (int z = 0; z <= (block ? 1 : 0); ++z)
        {
            for (int x = x0; x < x0 + w; ++x)
            {
                spots.push_back({x, y0, z});
            }
        }
        spots.erase(std::remove_if(spots.begin(), spots.end(), [&](const auto& c) { return !skel.is_empty_cell(c); }), spots.end());
        if (spots.size() < static_cast<size_t>(w) * (block ? 2 : 1))
        {
            expect.clear();
            usable = false;
            return;
        }
        ps.number_of_canvas_sidbs = static_cast<size_t>(sim::choose("k", 1, std::min<int64_t>(2, static_cast<int64_t>(spots.size()))));
        // what every single candidate is worth on its own
        auto filter = ps.operational_params, simulate = ps.operational_params;
        using O                                         = fiction::is_operational_params;
        filter.strategy_to_analyze_operational_status   = O::operational_analysis_strategy::FILTER_ONLY;
        filter.op_condition                             = O::operational_condition::REJECT_KINKS;
        simulate.strategy_to_analyze_operational_status = O::operational_analysis_strategy::SIMULATION_ONLY;
        const size_t n = spots.size(), k = ps.number_of_canvas_sidbs;
        for (unsigned set = 0; set < (1u << n); ++set)
        {
            if (static_cast<size_t>(__builtin_popcount(set)) != k)
            {
                continue;
            }
            ++combos;
            auto l = skel.clone();
            for (size_t i = 0; i < n; ++i)
            {
                if (set >> i & 1)
                {
                    l.assign_cell_type(spots[i], cell_t::LOGIC);
                }
            }
            candidates.insert(cells_of(l));
            const bool good = md == mode::exhaustive || md == mode::random ? operational(l, spec, ps.operational_params) :
                              md == mode::pruning ? operational(l, spec, filter) :
                                                    operational(l, spec, filter) && operational(l, spec, simulate);
            if (good)
            {
                ++expect[cells_of(l)];
            }
        }
    }

    void run(bool alone)
    {
        const auto                       before = cells_of(skel);
        fiction::design_sidb_gates_stats st{};
        const auto                       got = fiction::design_sidb_gates(skel, spec, ps, &st);
        if (alone)
        {
            SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
        }
        const sim::quiet q;
        SIM_CHECK(cells_of(skel) == before, "skeleton-changed", "the given skeleton was modified");
        std::map<placed, size_t> have;
        for (const auto& l : got)
        {
            const auto p = cells_of(l);
            ++have[p];
            SIM_CHECK(candidates.count(p) == 1, "not-a-candidate", "%s is not the skeleton with %zu canvas SiDBs", text(p).c_str(), ps.number_of_canvas_sidbs);
            SIM_CHECK(expect.count(p) == 1, "not-operational", "%s is returned though it is not operational", text(p).c_str());
            if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
            {
                SIM_CHECK(l.num_defects() == defects.size(), "defects-lost", "a gate has %zu defects, the skeleton %zu", static_cast<size_t>(l.num_defects()), defects.size());
                for (const auto& [c, d] : defects)
                {
                    SIM_CHECK(l.get_sidb_defect(c) == d, "defects-lost", "a defect of the skeleton is missing in the gate");
                }
            }
            SIM_CHECK(md == mode::random || have[p] <= expect[p], "returned-twice", "%s is returned more than once", text(p).c_str());
        }
        if ((all && md != mode::random) || md == mode::pruning)
        {
            SIM_CHECK(have.size() == expect.size(), "missed-gates", "%zu of %zu operational gates are returned", have.size(), expect.size());
        }
        else
        {
            SIM_CHECK(got.empty() == expect.empty(), "no-gate", "%zu gates are returned, %zu of %zu candidates are operational", got.size(), expect.size(), combos);
        }
        SIM_CHECK(st.number_of_layouts == combos, "layout-count", "%zu layouts are reported, there are %zu", static_cast<size_t>(st.number_of_layouts), combos);
        SIM_CHECK(st.sim_engine == ps.operational_params.sim_engine, "engine", "another engine is reported");
        if (md == mode::quickcell || md == mode::pruning)
        {
            SIM_CHECK(st.number_of_layouts_after_first_pruning <= combos && st.number_of_layouts_after_second_pruning <= st.number_of_layouts_after_first_pruning &&
                          st.number_of_layouts_after_third_pruning <= st.number_of_layouts_after_second_pruning && st.number_of_layouts_after_third_pruning >= got.size(),
                      "pruning-count", "%zu %zu %zu layouts after the pruning steps, %zu before, %zu returned", static_cast<size_t>(st.number_of_layouts_after_first_pruning),
                      static_cast<size_t>(st.number_of_layouts_after_second_pruning), static_cast<size_t>(st.number_of_layouts_after_third_pruning), combos, got.size());
            if (md == mode::pruning)
            {
                SIM_CHECK(st.number_of_layouts_after_third_pruning == got.size(), "pruning-count", "%zu layouts after the pruning steps, %zu returned",
                          static_cast<size_t>(st.number_of_layouts_after_third_pruning), got.size());
            }
        }
        sim::note(got.size());
        sim::probe(got.empty() ? "no-gate" : got.size() < combos ? "some-gates" : "every-gate");
        if (md == mode::random && !got.empty())
        {
            sim::probe("random");
        }
    }
};

template <typename Lyt>
void one()
{
    job<Lyt> j{};
    j.make();
    const auto cores = static_cast<unsigned>(sim::choose("cores", 0, 5));
    sim::set_hardware_concurrency(cores);
    if (cores > 1 && j.combos > 1)
    {
        sim::probe("parallel");
        sim::nontrivial();
    }
    j.run(true);
}
}  // namespace

SIM_SCENARIO(design, 6)
{
    one<lyt100>();
}
SIM_SCENARIO(defects, 2)
{
    one<fiction::sidb_defect_surface<lyt100>>();
}
SIM_SCENARIO(callers, 1)
{
    std::vector<job<lyt100>> js(2);
    for (auto& j : js)
    {
        j.make();
    }
    sim::set_hardware_concurrency(static_cast<unsigned>(sim::choose("cores", 1, 3)));
    std::vector<std::thread> ts;
    for (auto& j : js)
    {
        ts.emplace_back([&j] { j.run(false); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    sim::nontrivial();
}
