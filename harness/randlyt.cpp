// S11: random SiDB layouts: what was asked for, on a kept skeleton, within the attempts allowed, for any entropy and any callers.
#include "gate.hpp"

#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp>

#include <optional>
#include <thread>

namespace
{
using namespace gates;
template <typename C>
using on        = fiction::sidb_lattice<fiction::sidb_100_lattice, fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<C>>>>;
using l_siqad   = on<fiction::siqad::coord_t>;
using l_cube    = on<fiction::cube::coord_t>;
using l_offset  = on<fiction::offset::ucoord_t>;
using l_surface = fiction::sidb_defect_surface<l_siqad>;

template <typename Lyt>
fiction::coordinate<Lyt> at(int x, int row)
{
    if constexpr (fiction::has_siqad_coord_v<Lyt>)
    {
        return {x, (row >> 1), row & 1};
    }
    else
    {
        return {x, row};
    }
}
using spot = std::pair<int, int>;
template <typename Lyt>
spot spot_of(const fiction::coordinate<Lyt>& c)
{
    if constexpr (fiction::has_siqad_coord_v<Lyt>)
    {
        return {(int)c.x, 2 * (int)c.y + (int)c.z};
    }
    else
    {
        return {(int)c.x, (int)c.y};
    }
}
template <typename Lyt>
std::map<spot, int> cells(const Lyt& l)
{
    std::map<spot, int> m;
    l.foreach_cell([&](const auto& c) { m[spot_of<Lyt>(c)] = (int)l.get_cell_type(c); });
    return m;
}

template <typename Lyt>
struct job
{
    using params_t = fiction::generate_random_sidb_layout_params<fiction::coordinate<Lyt>>;
    using charges  = typename params_t::positive_charges;
    params_t           ps{};
    std::optional<Lyt> skel{};
    bool               several = false, plenty = false;
    int                x0 = 0, y0 = 0, x1 = 0, y1 = 0;
    std::set<spot>     blocked;  // by defects
    size_t             room = 0;

    void draw()
    {
        const sim::quiet q;
        const int        lo = fiction::has_offset_ucoord_v<Lyt> ? 0 : -5;
        x0                  = static_cast<int>(sim::choose("x0", lo, 6));
        y0                  = static_cast<int>(sim::choose("y0", lo, 6));
        x1                  = x0 + static_cast<int>(sim::pick("w", {0, 1, 2, 4, 7}));
        y1                  = y0 + static_cast<int>(sim::pick("h", {0, 1, 2, 4}));
        ps.coordinate_pair  = {at<Lyt>(x0, y0), at<Lyt>(x1, y1)};
        if (sim::chance("swapped", 30))
        {
            std::swap(ps.coordinate_pair.first, ps.coordinate_pair.second);
        }
        if (fiction::is_sidb_defect_surface_v<Lyt> || sim::chance("skeleton", 60))
        {
            skel.emplace();
            for (int64_t i = 0, n = sim::choose("given", 0, 4); i < n; ++i)
            {
                const bool in = sim::chance("inside", 40);
                skel->assign_cell_type(in ? at<Lyt>(static_cast<int>(sim::choose("sx", x0, x1)), static_cast<int>(sim::choose("sy", y0, y1))) :
                                            at<Lyt>(static_cast<int>(sim::choose("sx", 20, 40)), static_cast<int>(sim::choose("sy", 0, 8))),
                                       sim::pick("type", {cell_t::NORMAL, cell_t::INPUT, cell_t::OUTPUT}));
            }
            if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
            {
                for (int64_t i = 0, n = sim::choose("defects", 0, 3); i < n; ++i)
                {
                    const auto c = at<Lyt>(static_cast<int>(sim::choose("fx", x0 - 2, x1 + 2)), static_cast<int>(sim::choose("fy", y0 - 2, y1 + 2)));
                    if (skel->is_empty_cell(c))
                    {
                        skel->assign_sidb_defect(c, sim::pick("defect", {fiction::sidb_defect{fiction::sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}, fiction::sidb_defect{fiction::sidb_defect_type::SILOXANE},
                                                                         fiction::sidb_defect{fiction::sidb_defect_type::DB, -1, 4.1, 1.8}}));
                        blocked.insert(spot_of<Lyt>(c));
                    }
                }
                for (const auto& c : skel->all_affected_sidbs(std::make_pair(0, 0)))
                {
                    blocked.insert(spot_of<Lyt>(c));
                }
            }
        }
        for (int y = y0; y <= y1; ++y)
        {
            for (int x = x0; x <= x1; ++x)
            {
                room += !blocked.count({x, y}) && !(skel && !skel->is_empty_cell(at<Lyt>(x, y)));
            }
        }
        const auto area                          = static_cast<uint64_t>((x1 - x0 + 1) * (y1 - y0 + 1));
        ps.number_of_sidbs                       = static_cast<uint64_t>(sim::choose("sidbs", 0, 5));
        ps.positive_sidbs                        = sim::pick("charges", {charges::ALLOWED, charges::ALLOWED, charges::FORBIDDEN, charges::MAY_OCCUR});
        ps.simulation_parameters                 = fiction::sidb_simulation_parameters{3, sim::pick("mu", {-0.32, -0.25}), 5.6, 5.0};
        plenty                                   = sim::chance("plenty", 60);
        ps.maximal_attempts                      = plenty ? (ps.positive_sidbs == charges::FORBIDDEN ? 10 * area : 60 * area + 100) : static_cast<uint64_t>(sim::choose("attempts", 0, 12));
        if (ps.positive_sidbs == charges::MAY_OCCUR)
        {
            ps.maximal_attempts = std::min<uint64_t>(ps.maximal_attempts, 25);
        }
        several                                  = sim::chance("several", 40);
        ps.number_of_unique_generated_layouts    = static_cast<uint64_t>(sim::choose("unique", 0, 6));
        ps.maximal_attempts_for_multiple_layouts = sim::pick<uint64_t>("failures", {0, 1, 3, 40});
        sim::describe("area=%dx%d room=%zu sidbs=%zu charges=%d attempts=%zu skeleton=%d blocked=%zu several=%d unique=%zu failures=%zu", x1 - x0 + 1, y1 - y0 + 1, room, (size_t)ps.number_of_sidbs,
                      (int)ps.positive_sidbs, (size_t)ps.maximal_attempts, skel.has_value(), blocked.size(), several, (size_t)ps.number_of_unique_generated_layouts,
                      (size_t)ps.maximal_attempts_for_multiple_layouts);
    }

    void check(const Lyt& l) const
    {
        const auto have  = cells(l);
        size_t     added = have.size();
        if (skel)
        {
            for (const auto& [p, t] : cells(*skel))
            {
                const auto i = have.find(p);
                SIM_CHECK(i != have.end() && i->second == t, "skeleton-changed", "the SiDB at (%d,%d) of the skeleton %s", p.first, p.second, i == have.end() ? "is gone" : "has another type");
                --added;
            }
        }
        SIM_CHECK(added == ps.number_of_sidbs, "sidb-count", "%zu SiDBs were added, %zu were asked for", added, (size_t)ps.number_of_sidbs);
        for (const auto& [p, t] : have)
        {
            if (!skel || skel->is_empty_cell(at<Lyt>(p.first, p.second)))
            {
                SIM_CHECK(p.first >= x0 && p.first <= x1 && p.second >= y0 && p.second <= y1, "outside", "an SiDB was placed at (%d,%d), outside of (%d,%d)-(%d,%d)", p.first, p.second, x0, y0, x1, y1);
                SIM_CHECK(!blocked.count(p), "on-defect", "an SiDB was placed at (%d,%d), which a defect blocks", p.first, p.second);
            }
        }
        if constexpr (fiction::is_sidb_defect_surface_v<Lyt>)
        {
            SIM_CHECK(l.num_defects() == skel->num_defects(), "defects-lost", "%zu defects instead of %zu", (size_t)l.num_defects(), (size_t)skel->num_defects());
            skel->foreach_sidb_defect([&](const auto& cd) { SIM_CHECK(l.get_sidb_defect(cd.first) == cd.second, "defects-lost", "a defect of the skeleton changed"); });
        }
        if (ps.positive_sidbs == charges::FORBIDDEN && ps.number_of_sidbs > 0)
        {
            SIM_CHECK(!fiction::can_positive_charges_occur(l, ps.simulation_parameters), "positive", "positive charges can occur though they are forbidden");
        }
        if (ps.positive_sidbs == charges::MAY_OCCUR)
        {
            SIM_CHECK(fiction::can_positive_charges_occur(l, ps.simulation_parameters), "not-positive", "positive charges cannot occur though they were asked for");
        }
    }

    void run(bool alone)
    {
        const bool certain = plenty && ps.positive_sidbs == charges::ALLOWED && room >= ps.number_of_sidbs;
        if (!several)
        {
            const auto       r = fiction::generate_random_sidb_layout<Lyt>(ps, skel);
            const sim::quiet q;
            if (r)
            {
                check(*r);
            }
            SIM_CHECK(r || !certain, "gave-up", "no layout was generated though there is room for %zu SiDBs", room);
            SIM_CHECK(!r || ps.number_of_sidbs <= room, "impossible", "%zu SiDBs were added where %zu fit", (size_t)ps.number_of_sidbs, room);
            sim::probe(r ? "generated" : "gave-up");
            sim::note(r.has_value());
        }
        else
        {
            const auto       r = fiction::generate_multiple_random_sidb_layouts<Lyt>(ps, skel);
            const sim::quiet q;
            SIM_CHECK(!r || !r->empty(), "empty", "an empty list of layouts was returned");
            std::set<std::map<spot, int>> seen;
            for (size_t i = 0; r && i < r->size(); ++i)
            {
                check((*r)[i]);
                SIM_CHECK(seen.insert(cells((*r)[i])).second, "twice", "two of the layouts are the same");
            }
            const size_t n = r ? r->size() : 0;
            SIM_CHECK(n <= ps.number_of_unique_generated_layouts, "too-many", "%zu layouts were generated, %zu were asked for", n, (size_t)ps.number_of_unique_generated_layouts);
            if (certain && ps.maximal_attempts_for_multiple_layouts > 0 && ps.number_of_unique_generated_layouts > 0)
            {
                SIM_CHECK(n >= 1, "gave-up", "no layout was generated though there is room for %zu SiDBs", room);
                // at 40 failures, a handful of layouts among many is found
                double ways = 1;
                for (size_t i = 0; i < ps.number_of_sidbs; ++i)
                {
                    ways = ways * static_cast<double>(room - i) / static_cast<double>(i + 1);
                }
                if (ps.maximal_attempts_for_multiple_layouts == 40 && ways >= 3 * static_cast<double>(ps.number_of_unique_generated_layouts))
                {
                    SIM_CHECK(n == ps.number_of_unique_generated_layouts, "too-few", "%zu of %zu layouts were generated", n, (size_t)ps.number_of_unique_generated_layouts);
                }
            }
            sim::probe("several");
            sim::note(n);
        }
        if (ps.number_of_sidbs > 0 || !alone)
        {
            sim::nontrivial();
        }
    }
};
template <typename Lyt>
void one()
{
    job<Lyt> j{};
    j.draw();
    j.run(true);
}
}  // namespace

SIM_SCENARIO(single, 5)
{
    switch (sim::choose("coordinates", 0, 3))
    {
        case 0: one<l_siqad>(); break;
        case 1: one<l_cube>(); break;
        case 2: one<l_offset>(); break;
        default: one<l_surface>(); break;
    }
}
SIM_SCENARIO(callers, 2)
{
    std::vector<job<l_surface>> js(3);
    for (auto& j : js)
    {
        j.draw();
    }
    std::vector<std::thread> ts;
    for (auto& j : js)
    {
        ts.emplace_back([&j] { j.run(false); });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    sim::probe("callers");
}
