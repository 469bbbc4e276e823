// Random layouts and results for the readers and writers, and the files they live in.
#pragma once
#include "sim.hpp"

#include "net.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/name_utils.hpp>

#include <algorithm>
#include <array>
#include <cerrno>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace iot
{
using namespace fiction;

using siqad_lyt   = sidb_100_cell_clk_lyt_siqad;
using cart_lyt    = sidb_100_cell_clk_lyt;
using siqad111    = sidb_111_cell_clk_lyt_siqad;
using defect_lyt  = sidb_defect_surface<siqad_lyt>;
using defect_cart = sidb_defect_surface<cart_lyt>;
using flat_qca    = qca_cell_clk_lyt;  // at most two layers
using tall_qca    = stacked_qca_cell_clk_lyt;
using inml        = inml_cell_clk_lyt;
using molqca      = mol_qca_cell_clk_lyt;

// a writer that died must not look like one that finished: what a file holds, read behind the simulated disk's back
inline std::string slurp(const std::string& name)
{
    const sim::quiet q;
    sim::disk_reset();
    std::ifstream in{name, std::ios::binary};
    return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
inline void spill(const std::string& name, const std::string& s)
{
    const sim::quiet q;
    sim::disk_reset();
    std::ofstream o{name, std::ios::binary};
    o << s;
    o.close();
    if (!o)
    {
        sim::discard("spill");
    }
}
inline bool prefix(const std::string& a, const std::string& b)
{
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}
// dates of the simulated wall clock are not compared
inline std::string undated(std::string s)
{
    static const char* shape = "dddd-dd-dd dd:dd:dd";
    for (size_t i = 0; i + 19 <= s.size(); ++i)
    {
        size_t k = 0;
        while (k < 19 && (shape[k] == 'd' ? (s[i + k] >= '0' && s[i + k] <= '9') : s[i + k] == shape[k]))
        {
            ++k;
        }
        if (k == 19)
        {
            s.replace(i, 19, "DATE.......DATE....");
        }
    }
    return s;
}
inline std::string shorten(const std::string& s)
{
    std::string r;
    for (const char c : s)
    {
        r += c == '\n' ? std::string{"\\n"} : std::string(1, c);
    }
    return r.size() > 120 ? "..." + r.substr(r.size() - 120) : r;
}
inline std::string a_name(const char* what)
{
    static const char* words[] = {"", "a", "out0", "half_adder", "x1", "lyt", "A", "q[3]"};
    return words[sim::choose(what, 0, 7)];
}

// ---- SiDB layouts -----------------------------------------------------------------------------------------------
template <typename Lyt>
void put_sidbs(Lyt& l, int most)
{
    const auto n = sim::choose("dots", 0, most);
    for (int64_t i = 0; i < n; ++i)
    {
        const auto     x = sim::choose("x", 0, 12), y = sim::choose("y", 0, 9);
        cell<Lyt>      c{};
        if constexpr (has_siqad_coord_v<Lyt>)
        {
            c = cell<Lyt>{x, y / 2, y % 2};
        }
        else
        {
            c = cell<Lyt>{x, y};
        }
        l.assign_cell_type(c, sim::pick("type", {sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT,
                                                 sidb_technology::cell_type::LOGIC}));
    }
}
template <typename Lyt>
void put_defects(Lyt& l, int most)
{
    static constexpr std::array types{sidb_defect_type::DB,         sidb_defect_type::SI_VACANCY, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::ONE_BY_ONE,
                                      sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI,       sidb_defect_type::MISSING_DIMER,  sidb_defect_type::ETCH_PIT,
                                      sidb_defect_type::STEP_EDGE,  sidb_defect_type::GUNK,       sidb_defect_type::UNKNOWN};
    const auto n = sim::choose("defects", 0, most);
    for (int64_t i = 0; i < n; ++i)
    {
        const auto x = sim::choose("x", 0, 12), y = sim::choose("y", 0, 9);
        cell<Lyt>  c{};
        if constexpr (has_siqad_coord_v<Lyt>)
        {
            c = cell<Lyt>{x, y / 2, y % 2};
        }
        else
        {
            c = cell<Lyt>{x, y};
        }
        const auto  t = types[static_cast<size_t>(sim::choose("defect", 0, static_cast<int64_t>(types.size()) - 1))];
        sidb_defect d{t};
        if (is_charged_defect_type(d))
        {
            d = sidb_defect{t, sim::pick<int64_t>("charge", {-1, 1, 2, -2}), sim::pick("eps", {5.6, 10.6, 1.0 / 3 + 1, 4.1}), sim::pick("lambda", {5.0, 1.8, 5.9000000000000004, 1e-7})};
        }
        l.assign_sidb_defect(c, d);
    }
}
template <typename Lyt>
Lyt sidbs(int most = 9)
{
    const sim::quiet q;
    Lyt              l{};
    put_sidbs(l, most);
    if constexpr (has_assign_sidb_defect_v<Lyt>)
    {
        put_defects(l, 5);
    }
    return l;
}
// everything an sqd file says about a layout
template <typename Lyt>
std::string sidb_text(const Lyt& l)
{
    const sim::quiet      q;
    std::set<std::string> parts;
    const auto            at = [](const auto& c)
    {
        if constexpr (has_siqad_coord_v<Lyt>)
        {
            return std::to_string((long long)c.x) + "," + std::to_string((long long)(c.y * 2 + c.z));
        }
        else
        {
            return std::to_string((long long)c.x) + "," + std::to_string((long long)c.y);
        }
    };
    l.foreach_cell([&](const auto& c) { parts.insert("dot " + at(c) + " " + std::to_string((int)l.get_cell_type(c))); });
    if constexpr (has_foreach_sidb_defect_v<Lyt>)
    {
        l.foreach_sidb_defect(
            [&](const auto& cd)
            {
                char b[160];
                std::snprintf(b, sizeof b, "defect %s %d q=%lld e=%.17g l=%.17g", at(cd.first).c_str(), (int)cd.second.type, (long long)cd.second.charge, cd.second.epsilon_r, cd.second.lambda_tf);
                parts.insert(b);
            });
    }
    std::string s;
    for (const auto& p : parts)
    {
        s += p + "\n";
    }
    return s;
}

// ---- QCA-like layouts -------------------------------------------------------------------------------------------
// `filed`: only what an fqca file can say
template <typename qca>
qca a_qca(bool filed, int layers)
{
    const sim::quiet q;
    const auto       w = sim::choose("w", 0, 6), h = sim::choose("h", 0, 5), z = sim::choose("z", 0, layers);
    qca              l{aspect_ratio<qca>{static_cast<decltype(std::declval<qca>().x())>(w), static_cast<decltype(std::declval<qca>().y())>(h), static_cast<decltype(std::declval<qca>().z())>(z)}, filed ? open_clocking<qca>(num_clks::FOUR) : twoddwave_clocking<qca>(num_clks::FOUR),
          a_name("layout")};
    const auto       n    = sim::choose("cells", 1, 24);
    int              pins = 0;
    for (int64_t i = 0; i < n; ++i)
    {
        const auto      cx = sim::choose("x", 0, w), cy = sim::choose("y", 0, h), cz = sim::choose("l", 0, z);
        const cell<qca> c{static_cast<decltype(l.x())>(cx), static_cast<decltype(l.y())>(cy), static_cast<decltype(l.z())>(cz)};
        const auto      t = sim::choose("type", 0, 9);
        if (!l.is_empty_cell(c))
        {
            continue;
        }
        if (t <= 5 || pins >= 40)
        {
            l.assign_cell_type(c, qca_technology::cell_type::NORMAL);
        }
        else if (t <= 7)
        {
            l.assign_cell_type(c, t == 6 ? qca_technology::cell_type::INPUT : qca_technology::cell_type::OUTPUT);
            l.assign_cell_name(c, (t == 6 ? "in" : "out") + std::to_string(pins++));
        }
        else
        {
            l.assign_cell_type(c, t == 8 ? qca_technology::cell_type::CONST_0 : qca_technology::cell_type::CONST_1);
        }
        if (filed && t <= 7)
        {
            l.assign_clock_number(c, static_cast<typename qca::clock_number_t>(sim::choose("clk", 0, 3)));
        }
        if (c.z > 0)
        {
            l.assign_cell_mode(c, c.z % 2 ? qca_technology::cell_mode::VERTICAL : qca_technology::cell_mode::CROSSOVER);
        }
    }
    return l;
}
template <typename qca>
std::string qca_text(const qca& l)
{
    const sim::quiet      q;
    std::set<std::string> parts;
    l.foreach_cell(
        [&](const auto& c)
        {
            const auto t = l.get_cell_type(c);
            parts.insert(std::to_string((long long)c.x) + "," + std::to_string((long long)c.y) + "," + std::to_string((long long)c.z) + " type " + std::to_string((int)t) + " mode " + std::to_string((int)l.get_cell_mode(c)) +
                         " name '" + l.get_cell_name(c) + "'" + (qca_technology::is_constant_cell(t) ? std::string{} : " clock " + std::to_string((int)l.get_clock_number(c))));
        });
    std::set<std::string> io;
    l.foreach_pi([&](const auto& c) { io.insert("pi " + std::to_string((long long)c.x) + "," + std::to_string((long long)c.y) + "," + std::to_string((long long)c.z)); });
    l.foreach_po([&](const auto& c) { io.insert("po " + std::to_string((long long)c.x) + "," + std::to_string((long long)c.y) + "," + std::to_string((long long)c.z)); });
    std::string s;
    for (const auto& p : parts)
    {
        s += p + "\n";
    }
    for (const auto& p : io)
    {
        s += p + "\n";
    }
    return s;
}
inline molqca a_molqca()
{
    const sim::quiet q;
    const auto       w = sim::choose("w", 0, 5), h = sim::choose("h", 0, 5);
    molqca           l{aspect_ratio<molqca>{static_cast<uint64_t>(w), static_cast<uint64_t>(h), 0}, twoddwave_clocking<molqca>(num_clks::FOUR), a_name("layout")};
    const auto       n = sim::choose("cells", 1, 12);
    for (int64_t i = 0; i < n; ++i)
    {
        const cell<molqca> c{static_cast<uint64_t>(sim::choose("x", 0, w)), static_cast<uint64_t>(sim::choose("y", 0, h)), 0};
        if (!l.is_empty_cell(c))
        {
            continue;
        }
        l.assign_cell_type(c, sim::pick("type", {mol_qca_technology::cell_type::NORMAL1, mol_qca_technology::cell_type::NORMAL2, mol_qca_technology::cell_type::NORMAL3, mol_qca_technology::cell_type::NORMAL4,
                                                 mol_qca_technology::cell_type::INPUT, mol_qca_technology::cell_type::OUTPUT}));
    }
    return l;
}
// pins at the left and right border, magnets between them
inline inml an_inml()
{
    const sim::quiet q;
    const auto       w = sim::choose("w", 1, 8), h = sim::choose("h", 0, 5);
    inml             l{aspect_ratio<inml>{static_cast<uint64_t>(w), static_cast<uint64_t>(h), 0}, columnar_clocking<inml>(num_clks::THREE), a_name("layout")};
    l.assign_cell_type({0, 0}, inml_technology::cell_type::INPUT);
    l.assign_cell_name({0, 0}, "in");
    l.assign_cell_type({static_cast<uint64_t>(w), static_cast<uint64_t>(h)}, inml_technology::cell_type::OUTPUT);
    l.assign_cell_name({static_cast<uint64_t>(w), static_cast<uint64_t>(h)}, "out");
    const auto n = sim::choose("cells", 1, 12);
    for (int64_t i = 0; i < n; ++i)
    {
        const cell<inml> c{static_cast<uint64_t>(sim::choose("x", 0, w)), static_cast<uint64_t>(sim::choose("y", 0, h)), 0};
        if (!l.is_empty_cell(c))
        {
            continue;
        }
        l.assign_cell_type(c, sim::chance("inverter", 20) ? inml_technology::cell_type::INVERTER_MAGNET : inml_technology::cell_type::NORMAL);
    }
    return l;
}

// ---- gate-level layouts -----------------------------------------------------------------------------------------
// everything an fgl file says about a layout; outputs are known by their tile
template <typename Lyt>
std::string gates_text(const Lyt& l)
{
    const sim::quiet      q;
    std::set<std::string> parts;
    const auto            at = [](const auto& t) { return "(" + std::to_string((long long)t.x) + "," + std::to_string((long long)t.y) + "," + std::to_string((long long)t.z) + ")"; };
    l.foreach_node(
        [&](const auto& n)
        {
            if (l.is_constant(n))
            {
                return;
            }
            const auto  t = l.get_tile(n);
            std::string s = at(t) + (l.is_pi(n) ? " pi '" + l.get_name(n) + "'" : std::string{}) + (l.is_po(n) ? " po '" + l.get_name(n) + "'" : std::string{});
            if (!l.is_pi(n))
            {
                s += " f=" + kitty::to_hex(l.node_function(n)) + "/" + std::to_string(l.node_function(n).num_vars());
            }
            l.foreach_fanin(n, [&](const auto& f) { s += " <" + at(static_cast<tile<Lyt>>(f)); });
            parts.insert(s);
        });
    std::string s = "name '" + get_name(l) + "' " + std::to_string((long long)l.x()) + "x" + std::to_string((long long)l.y()) + "x" + std::to_string((long long)l.z()) + " pis";
    l.foreach_pi([&](const auto& n) { s += at(l.get_tile(n)); });
    s += "\n";
    for (const auto& p : parts)
    {
        s += p + "\n";
    }
    for (uint64_t y = 0; y <= std::min<uint64_t>(static_cast<uint64_t>(l.y()), 40); ++y)  // what a damaged file says can be large
    {
        for (uint64_t x = 0; x <= std::min<uint64_t>(static_cast<uint64_t>(l.x()), 40); ++x)
        {
            s += static_cast<char>('0' + l.get_clock_number({x, y}));
        }
    }
    return s + "\n";
}
// any function that depends on all of its inputs
inline kitty::dynamic_truth_table a_function(uint32_t vars)
{
    kitty::dynamic_truth_table tt{vars};
    {
        for (uint64_t i = 0; i < tt.num_bits(); ++i)
        {
            sim::chance("bit", 50) ? kitty::set_bit(tt, i) : kitty::clear_bit(tt, i);
        }
        bool all = true;
        for (uint32_t v = 0; v < vars; ++v)
        {
            bool dep = false;
            for (uint64_t i = 0; i < tt.num_bits(); ++i)
            {
                dep = dep || kitty::get_bit(tt, i) != kitty::get_bit(tt, i ^ (1ull << v));
            }
            all = all && dep;
        }
        if (all)
        {
            return tt;
        }
        kitty::set_bit(tt, 0);  // makes the minimised choices end: and-like
        for (uint64_t i = 1; i < tt.num_bits(); ++i)
        {
            kitty::clear_bit(tt, i);
        }
        return tt;
    }
}
// a legal layout on any topology: data flows between neighbouring tiles of consecutive clock zones, every gate reaches an output
template <typename Lyt>
Lyt loose_gates()
{
    const sim::quiet q;
    const auto       w = sim::choose("w", 1, 5), h = sim::choose("h", 1, 5);
    const auto       k = sim::choose("clocking", 0, 3);
    Lyt              l{aspect_ratio<Lyt>{static_cast<uint64_t>(w), static_cast<uint64_t>(h), 1}, k == 0 ? twoddwave_clocking<Lyt>() : k == 1 ? use_clocking<Lyt>() : k == 2 ? open_clocking<Lyt>(num_clks::FOUR) : open_clocking<Lyt>(num_clks::THREE),
          a_name("layout")};
    if (k >= 2)
    {
        for (uint64_t x = 0; x <= static_cast<uint64_t>(w); ++x)
        {
            for (uint64_t y = 0; y <= static_cast<uint64_t>(h); ++y)
            {
                l.assign_clock_number({x, y}, static_cast<typename Lyt::clock_number_t>(sim::choose("zone", 0, k == 2 ? 3 : 2)));
            }
        }
    }
    std::vector<tile<Lyt>>    live;  // tiles whose signal can be used
    std::map<uint64_t, int>   used;
    int                       pins = 0;
    const auto                id   = [](const tile<Lyt>& t) { return static_cast<uint64_t>(static_cast<mockturtle::signal<Lyt>>(t)); };
    const auto                n    = sim::choose("gates", 2, 14);
    for (int64_t i = 0; i < n; ++i)
    {
        const tile<Lyt> t{static_cast<uint64_t>(sim::choose("x", 0, w)), static_cast<uint64_t>(sim::choose("y", 0, h)), 0};
        if (!l.is_empty_tile(t))
        {
            continue;
        }
        // the tiles that can feed this one
        std::vector<tile<Lyt>> from;
        const auto             near = l.incoming_clocked_zones(t);
        for (const auto& s : live)
        {
            const bool wire = l.is_wire_tile(s) && !l.is_pi_tile(s);
            if (std::find(near.begin(), near.end(), s) != near.end() && used[id(s)] < (wire ? 2 : 1))
            {
                from.push_back(s);
            }
        }
        const auto s0 = [&](size_t j) { return static_cast<mockturtle::signal<Lyt>>(from[j]); };
        const auto use = [&](size_t j) { ++used[id(from[j])]; };
        if (from.empty())
        {
            l.create_pi(sim::chance("named", 80) ? "p" + std::to_string(pins++) : std::string{}, t);
            live.push_back(t);
            continue;
        }
        if (sim::chance("swap", 50))
        {
            std::reverse(from.begin(), from.end());
        }
        if (from.size() >= 3 && sim::chance("three", 60))
        {
            const auto a = s0(0), b = s0(1), c = s0(2);
            if (sim::chance("any", 40))
            {
                l.create_node({a, b, c}, a_function(3), t);
            }
            else
            {
                l.create_maj(a, b, c, t);
            }
            use(0), use(1), use(2);
        }
        else if (from.size() >= 2 && sim::chance("two", 80))
        {
            const auto a = s0(0), b = s0(1);
            switch (sim::choose("op", 0, 11))
            {
                case 10:
                case 11: l.create_node({a, b}, a_function(2), t); break;
                case 0: l.create_and(a, b, t); break;
                case 1: l.create_nand(a, b, t); break;
                case 2: l.create_or(a, b, t); break;
                case 3: l.create_nor(a, b, t); break;
                case 4: l.create_xor(a, b, t); break;
                case 5: l.create_xnor(a, b, t); break;
                case 6: l.create_lt(a, b, t); break;
                case 7: l.create_le(a, b, t); break;
                case 8: l.create_gt(a, b, t); break;
                default: l.create_ge(a, b, t); break;
            }
            use(0), use(1);
        }
        else if (sim::chance("end", 30))
        {
            l.create_po(s0(0), sim::chance("named", 80) ? "q" + std::to_string(pins++) : std::string{}, t);
            use(0);
            continue;
        }
        else
        {
            sim::chance("not", 50) ? l.create_not(s0(0), t) : l.create_buf(s0(0), t);
            use(0);
        }
        live.push_back(t);
    }
    // what nothing uses becomes an output or goes
    for (bool again = true; again;)
    {
        again = false;
        for (size_t i = 0; i < live.size(); ++i)
        {
            const auto t = live[i];
            if (used[id(t)] > 0)
            {
                continue;
            }
            for (const auto& o : l.outgoing_clocked_zones(t))
            {
                if (l.is_empty_tile(o) && o.x <= l.x() && o.y <= l.y() && o.z == 0)
                {
                    l.create_po(static_cast<mockturtle::signal<Lyt>>(t), "q" + std::to_string(pins++), o);
                    used[id(t)] = 1;
                    break;
                }
            }
            if (used[id(t)] == 0 && !l.is_pi_tile(t))  // a cleared input would still be listed as one
            {
                for (const auto& f : l.incoming_data_flow(t))
                {
                    --used[id(f)];
                }
                l.clear_tile(t);
                live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
                again = true;
                break;
            }
        }
    }
    return l;
}
// a network placed and routed
inline cart_gate_clk_lyt routed_gates()
{
    const sim::quiet q;
    const auto       s = net::draw(3, 4);
    auto             l = orthogonal<cart_gate_clk_lyt>(s.build());
    return l;
}
}  // namespace iot
