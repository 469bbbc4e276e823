// Reference electrostatics for the SiDB scenarios, written from the physical model (screened Coulomb potential,
// population stability, configuration stability), independent of fiction's charge_distribution_surface.
#pragma once
#include "sim.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>

#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
using base_lyt  = fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::siqad::coord_t>>>;
using lyt100    = fiction::sidb_lattice<fiction::sidb_100_lattice, base_lyt>;
using lyt111    = fiction::sidb_lattice<fiction::sidb_111_lattice, base_lyt>;
using cube_base = fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::cube::coord_t>>>;
using off_base  = fiction::cell_level_layout<fiction::sidb_technology, fiction::clocked_layout<fiction::cartesian_layout<fiction::offset::ucoord_t>>>;

struct site
{
    int  x, y, z;
    bool operator==(const site& o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator<(const site& o) const
    {
        return std::tie(y, z, x) < std::tie(o.y, o.z, o.x);
    }
};

struct lattice
{
    double a, b, cx, cy;
};
constexpr lattice L100{3.84, 7.68, 0.0, 2.25};
constexpr lattice L111{6.65, 3.84, 3.3255, 1.92};

inline std::pair<double, double> nm(const site& s, const lattice& l)
{
    return {(s.x * l.a + s.z * l.cx) * 0.1, (s.y * l.b + s.z * l.cy) * 0.1};
}
inline double dist(const site& p, const site& q, const lattice& l)
{
    const auto a = nm(p, l), b = nm(q, l);
    return std::hypot(a.first - b.first, a.second - b.second);
}
inline double coulomb(double d_nm, double eps, double lambda)
{
    return d_nm == 0.0 ? 0.0 : 8.987552e9 / eps / (d_nm * 1e-9) * std::exp(-d_nm / lambda) * 1.6021766e-19;
}

enum class verdict
{
    invalid,
    border,
    valid
};

struct defect
{
    site   at;
    int    charge;
    double eps, lambda;
};

struct model
{
    std::vector<site>                sites{};
    std::vector<defect>              defects{};
    double                           eps{5.6}, lambda{5.0}, mu{-0.32};
    double                           global{0.0};
    std::vector<double>              ext{};  // local external potentials
    lattice                          lat{L100};
    std::vector<std::vector<double>> v{};
    std::vector<double>              vdef{};

    double mu_plus() const { return mu - 0.59; }
    size_t n() const { return sites.size(); }
    void   finish()
    {
        v.assign(n(), std::vector<double>(n(), 0.0));
        vdef.assign(n(), 0.0);
        ext.resize(n(), 0.0);
        for (size_t i = 0; i < n(); ++i)
        {
            for (size_t j = 0; j < n(); ++j)
            {
                v[i][j] = coulomb(dist(sites[i], sites[j], lat), eps, lambda);
            }
            for (const auto& d : defects)
            {
                vdef[i] += d.charge * coulomb(dist(sites[i], d.at, lat), d.eps, d.lambda);
            }
        }
    }
    double vint(const std::vector<int>& c, size_t i) const
    {
        double x = vdef[i];
        for (size_t j = 0; j < n(); ++j)
        {
            x += v[i][j] * c[j];
        }
        return x;
    }
    double vext(size_t i) const { return ext[i] + global; }
    static verdict less(double a, double b)  // a < b, with a band of numerical doubt
    {
        return std::fabs(a - b) < 2e-8 ? verdict::border : a < b ? verdict::valid : verdict::invalid;
    }
    static verdict both(verdict a, verdict b) { return a < b ? a : b; }
    // hop_ext: weight of the external potential difference relative to fiction's formula
    verdict check(const std::vector<int>& c) const
    {
        constexpr double    E = 1e-6;
        verdict             r = verdict::valid;
        std::vector<double> vi(n());
        for (size_t i = 0; i < n(); ++i)
        {
            vi[i]          = vint(c, i);
            const double p = -vi[i] - vext(i);
            if (c[i] < 0)
            {
                r = both(r, less(p, -mu + E));
            }
            else if (c[i] > 0)
            {
                r = both(r, less(-mu_plus() - E, p));
            }
            else
            {
                r = both(r, both(less(-mu - E, p), less(p, -mu_plus() + E)));
            }
            if (r == verdict::invalid)
            {
                return r;
            }
        }
        for (size_t i = 0; i < n(); ++i)
        {
            for (size_t j = 0; j < n(); ++j)
            {
                if (c[i] <= 0 && c[j] > c[i])
                {
                    const double d = vext(i) - vext(j) + 0.5 * (vi[i] - vi[j] - v[i][j]);
                    r              = both(r, less(-E, d));
                }
            }
        }
        return r;
    }
    double energy(const std::vector<int>& c) const
    {
        double e = 0, x = 0;
        for (size_t i = 0; i < n(); ++i)
        {
            e += vint(c, i) * c[i];
            x += vext(i) * c[i];
        }
        for (const auto& d : defects)
        {
            double w = 0;
            for (const auto& o : defects)
            {
                w += o.charge * coulomb(dist(d.at, o.at, lat), o.eps, o.lambda);
            }
            for (size_t i = 0; i < n(); ++i)
            {
                w += c[i] * coulomb(dist(d.at, sites[i], lat), eps, lambda);
            }
            e += w * d.charge;
        }
        return x + 0.5 * e;
    }
    std::vector<int> decode(uint64_t ix, unsigned base) const
    {
        std::vector<int> c(n());
        for (size_t i = 0; i < n(); ++i)
        {
            c[i] = static_cast<int>(ix % base) - 1;
            ix /= base;
        }
        return c;
    }
    // all configurations: key = string of signs
    std::map<std::string, verdict> enumerate(unsigned base) const
    {
        std::map<std::string, verdict> m;
        uint64_t                       total = 1;
        for (size_t i = 0; i < n(); ++i)
        {
            total *= base;
        }
        for (uint64_t k = 0; k < total; ++k)
        {
            const auto c = decode(k, base);
            const auto r = check(c);
            if (r != verdict::invalid)
            {
                m[key(c)] = r;
            }
        }
        return m;
    }
    static std::string key(const std::vector<int>& c)
    {
        std::string s;
        for (const int x : c)
        {
            s += x < 0 ? '-' : x > 0 ? '+' : '0';
        }
        return s;
    }
};

inline fiction::siqad::coord_t co(const site& s)
{
    return fiction::siqad::coord_t{s.x, s.y, s.z};
}

// a random arrangement of n SiDBs in a w x h box; `pairs` arranges them as close pairs (BDL-like)
inline std::vector<site> random_sites(const char* name, int n, int w, int h, bool pairs = false)
{
    std::vector<site> v;
    int               guard = 0;
    while (static_cast<int>(v.size()) < n && ++guard < 200)
    {
        site s{static_cast<int>(sim::choose(name, 0, w)), static_cast<int>(sim::choose(name, 0, h)), static_cast<int>(sim::choose(name, 0, 1))};
        if (std::find(v.begin(), v.end(), s) == v.end())
        {
            v.push_back(s);
            if (pairs && static_cast<int>(v.size()) < n)
            {
                const site t{s.x + 2, s.y, s.z};
                if (std::find(v.begin(), v.end(), t) == v.end())
                {
                    v.push_back(t);
                }
            }
        }
    }
    return v;
}

template <typename Lyt>
void place(Lyt& l, const std::vector<site>& v)
{
    for (const auto& s : v)
    {
        l.assign_cell_type(co(s), Lyt::technology::cell_type::NORMAL);
    }
}

// charges of `cds` in the order of m.sites; fails when the two disagree about which SiDBs exist
template <typename Cds>
std::vector<int> charges(const Cds& cds, const model& m)
{
    std::vector<int> c(m.n());
    SIM_CHECK(cds.num_cells() == m.n(), "cells", "a returned charge distribution has %zu SiDBs instead of %zu", static_cast<size_t>(cds.num_cells()), m.n());
    for (size_t i = 0; i < m.n(); ++i)
    {
        const auto s = cds.get_charge_state(co(m.sites[i]));
        SIM_CHECK(s != fiction::sidb_charge_state::NONE, "cells", "SiDB %zu has no charge state in a returned distribution", i);
        c[i] = fiction::charge_state_to_sign(s);
    }
    return c;
}

inline fiction::sidb_simulation_parameters params_of(const model& m, unsigned base)
{
    return fiction::sidb_simulation_parameters{static_cast<uint8_t>(base), m.mu, m.eps, m.lambda};
}

inline std::string text(const model& m)
{
    std::string s;
    for (const auto& p : m.sites)
    {
        s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")";
    }
    return s;
}
}  // namespace ref
