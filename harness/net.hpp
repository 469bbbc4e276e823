// Small logic networks described independently of fiction, and the rules a gate-level layout made from one has to obey.
#pragma once
#include <sim.hpp>

#include <fiction/networks/technology_network.hpp>
#include <fiction/traits.hpp>
#include <fiction/types.hpp>

#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace net
{
enum op
{
    AND,
    OR,
    XOR,
    NAND,
    NOR,
    XNOR,
    LT,
    GT,
    LE,
    GE,
    NOT,
    BUF
};
struct gate
{
    op  o;
    int a, b;
};
struct spec
{
    int                      pis = 0;
    std::vector<gate>        gates;
    std::vector<int>         pos;  // indices: inputs first, then gates
    bool                     named = false;
    std::string              name;

    std::vector<uint64_t> values() const
    {
        static constexpr std::array<uint64_t, 4> in{0xAAAA, 0xCCCC, 0xF0F0, 0xFF00};
        const uint64_t                           m = (1ull << (1u << pis)) - 1;
        std::vector<uint64_t>                    v;
        for (int i = 0; i < pis; ++i)
        {
            v.push_back(in[static_cast<size_t>(i)] & m);
        }
        for (const auto& g : gates)
        {
            const uint64_t a = v[static_cast<size_t>(g.a)], b = v[static_cast<size_t>(g.b)];
            uint64_t       r = 0;
            switch (g.o)
            {
                case AND: r = a & b; break;
                case OR: r = a | b; break;
                case XOR: r = a ^ b; break;
                case NAND: r = ~(a & b); break;
                case NOR: r = ~(a | b); break;
                case XNOR: r = ~(a ^ b); break;
                case LT: r = a & ~b; break;
                case GT: r = ~a & b; break;
                case LE: r = a | ~b; break;
                case GE: r = ~a | b; break;
                case NOT: r = ~a; break;
                case BUF: r = a; break;
            }
            v.push_back(r & m);
        }
        return v;
    }
    fiction::tec_nt build() const
    {
        fiction::tec_nt       n{};
        std::vector<uint64_t> s;
        if (named)
        {
            n.set_network_name(name);
        }
        for (int i = 0; i < pis; ++i)
        {
            s.push_back(named ? n.create_pi("in" + std::to_string(i) + "x") : n.create_pi());
        }
        for (const auto& g : gates)
        {
            const auto a = s[static_cast<size_t>(g.a)], b = s[static_cast<size_t>(g.b)];
            switch (g.o)
            {
                case AND: s.push_back(n.create_and(a, b)); break;
                case OR: s.push_back(n.create_or(a, b)); break;
                case XOR: s.push_back(n.create_xor(a, b)); break;
                case NAND: s.push_back(n.create_nand(a, b)); break;
                case NOR: s.push_back(n.create_nor(a, b)); break;
                case XNOR: s.push_back(n.create_xnor(a, b)); break;
                case LT: s.push_back(n.create_lt(a, b)); break;
                case GT: s.push_back(n.create_gt(a, b)); break;
                case LE: s.push_back(n.create_le(a, b)); break;
                case GE: s.push_back(n.create_ge(a, b)); break;
                case NOT: s.push_back(n.create_not(a)); break;
                case BUF: s.push_back(n.create_buf(a)); break;
            }
        }
        for (size_t i = 0; i < pos.size(); ++i)
        {
            named ? n.create_po(s[static_cast<size_t>(pos[i])], "out" + std::to_string(i) + "y") : n.create_po(s[static_cast<size_t>(pos[i])]);
        }
        return n;
    }
    std::string text() const
    {
        static const char* const names[] = {"and", "or", "xor", "nand", "nor", "xnor", "lt", "gt", "le", "ge", "not", "buf"};
        std::string              t       = std::to_string(pis) + " in";
        for (const auto& g : gates)
        {
            t += std::string("; ") + names[g.o] + " " + std::to_string(g.a) + (g.o < NOT ? "," + std::to_string(g.b) : "");
        }
        t += " ->";
        for (const auto p : pos)
        {
            t += " " + std::to_string(p);
        }
        return t;
    }
};
// a network in which every input and every gate is used
inline spec draw(int max_pis, int max_gates, bool asymmetric = true)
{
    const sim::quiet q;
    spec             s;
    s.pis       = static_cast<int>(sim::choose("pis", 1, max_pis));
    const int n = static_cast<int>(sim::choose("gates", s.pis > 1 ? s.pis - 1 : 1, max_gates));
    std::vector<int> uses(static_cast<size_t>(s.pis), 0);
    for (int i = 0; i < n; ++i)
    {
        const int have = static_cast<int>(uses.size());
        gate      g{};
        g.o = (have > 1 && !sim::chance("unary", 25)) ? static_cast<op>(asymmetric && sim::chance("odd", 30) ? sim::choose("op", LT, GE) : sim::choose("op", AND, XNOR)) : sim::chance("buf", 10) ? BUF : NOT;
        // prefer signals nobody has used yet
        std::vector<int> fresh;
        for (int k = 0; k < have; ++k)
        {
            if (uses[static_cast<size_t>(k)] == 0)
            {
                fresh.push_back(k);
            }
        }
        const auto take = [&](int not_this)
        {
            std::erase(fresh, not_this);
            int k = (!fresh.empty() && sim::chance("fresh", 70)) ? fresh[static_cast<size_t>(sim::choose("f", 0, static_cast<int64_t>(fresh.size()) - 1))] : static_cast<int>(sim::choose("s", 0, have - 1));
            if (k == not_this)
            {
                k = (k + 1) % have;
            }
            ++uses[static_cast<size_t>(k)];
            return k;
        };
        g.a = take(-1);
        g.b = g.o < NOT ? take(g.a) : 0;
        s.gates.push_back(g);
        uses.push_back(0);
    }
    for (size_t k = 0; k < uses.size(); ++k)
    {
        if (uses[k] == 0 || sim::chance("po", 8))
        {
            s.pos.push_back(static_cast<int>(k));
        }
    }
    for (size_t i = s.pos.size(); i > 1; --i)
    {
        std::swap(s.pos[i - 1], s.pos[static_cast<size_t>(sim::choose("order", 0, static_cast<int64_t>(i) - 1))]);
    }
    s.named = sim::chance("named", 60);
    s.name  = "net";
    return s;
}

struct rules
{
    bool planar = false, straight_inverters = false, border = true, names = true;
    // is b the clock zone after that of a, next to it?
};
template <typename Lyt>
std::string where(const fiction::tile<Lyt>& t)
{
    return "(" + std::to_string((long long)t.x) + "," + std::to_string((long long)t.y) + "," + std::to_string((long long)t.z) + ")";
}
// the layout is a working, legal implementation of the network
template <typename Lyt>
void check(const Lyt& l, const spec& s, const rules& r)
{
    using tile = fiction::tile<Lyt>;
    std::map<uint64_t, tile>                  at;      // node to tile
    std::map<uint64_t, std::vector<uint64_t>> in;      // node to fan-in nodes
    std::map<uint64_t, std::vector<uint64_t>> out;
    std::set<std::string>                     taken;
    std::vector<uint64_t>                     pis, pos;
    l.foreach_pi([&](const auto& n) { pis.push_back(n); });
    l.foreach_po([&](const auto& f) { pos.push_back(l.get_node(f)); });
    SIM_CHECK(pis.size() == static_cast<size_t>(s.pis), "inputs", "the layout has %zu inputs instead of %d", pis.size(), s.pis);
    SIM_CHECK(pos.size() == s.pos.size(), "outputs", "the layout has %zu outputs instead of %zu", pos.size(), s.pos.size());
    size_t gates = 0, wires = 0, crossings = 0;
    l.foreach_node(
        [&](const auto& n)
        {
            if (!l.is_constant(n))
            {
                at[n] = l.get_tile(n);
            }
        });
    for (const auto& [n, t] : at)
    {
        SIM_CHECK(t.x <= l.x() && t.y <= l.y() && t.z <= l.z(), "outside", "tile %s lies outside of the layout", where<Lyt>(t).c_str());
        SIM_CHECK(taken.insert(where<Lyt>(t)).second, "two-on-one", "two nodes are placed on %s", where<Lyt>(t).c_str());
        SIM_CHECK(l.get_node(t) == n, "lookup", "the node on %s is not found there", where<Lyt>(t).c_str());
        SIM_CHECK(t.z == 0 || !r.planar, "not-planar", "there is a crossing on %s", where<Lyt>(t).c_str());
        const auto f   = l.node_function(n);
        const bool pi  = std::find(pis.begin(), pis.end(), n) != pis.end();
        const bool po  = std::find(pos.begin(), pos.end(), n) != pos.end();
        const bool buf = pi || (f.num_vars() == 1 && !kitty::get_bit(f, 0) && kitty::get_bit(f, 1));
        (buf ? wires : gates)++;
        if (t.z > 0)
        {
            SIM_CHECK(buf && !pi && !po, "crossing-gate", "%s in the crossing layer holds more than a wire", where<Lyt>(t).c_str());
            const auto b = l.get_node(tile{t.x, t.y, 0});
            SIM_CHECK(b != 0 && at.count(b), "crossing-nothing", "the wire on %s crosses nothing", where<Lyt>(t).c_str());
            const auto fb = l.node_function(b);
            SIM_CHECK(std::find(pis.begin(), pis.end(), b) == pis.end() && fb.num_vars() == 1 && !kitty::get_bit(fb, 0), "crossing-gate", "the wire on %s crosses a gate", where<Lyt>(t).c_str());
            ++crossings;
        }
        auto& c = in[n];
        l.template foreach_fanin<std::function<void(uint64_t)>, false>(n, [&](uint64_t g) { c.push_back(l.get_node(g)); });
        SIM_CHECK(pi ? c.empty() : c.size() == f.num_vars(), "fan-in", "the %s on %s has %zu inputs instead of %d", buf ? "wire" : "gate", where<Lyt>(t).c_str(), c.size(), pi ? 0 : (int)f.num_vars());
        for (const auto g : c)
        {
            SIM_CHECK(at.count(g), "fan-in-gone", "an input of %s is not placed", where<Lyt>(t).c_str());
            const auto u  = at[g];
            const auto dx = std::abs((int)u.x - (int)t.x), dy = std::abs((int)u.y - (int)t.y);
            SIM_CHECK(dx + dy == 1, "not-adjacent", "%s is an input of %s but not next to it", where<Lyt>(u).c_str(), where<Lyt>(t).c_str());
            SIM_CHECK((l.get_clock_number(u) + 1) % l.num_clocks() == l.get_clock_number(t), "clocking", "data cannot flow from %s (zone %d) to %s (zone %d)", where<Lyt>(u).c_str(), (int)l.get_clock_number(u),
                      where<Lyt>(t).c_str(), (int)l.get_clock_number(t));
            out[g].push_back(n);
        }
        if (r.border && (pi || po))
        {
            SIM_CHECK(t.x == 0 || t.y == 0 || t.x == l.x() || t.y == l.y(), "not-at-border", "the %s on %s is not at the border of the %dx%d layout", pi ? "input" : "output", where<Lyt>(t).c_str(), (int)l.x() + 1, (int)l.y() + 1);
        }
    }
    for (const auto& [n, t] : at)
    {
        const bool po  = std::find(pos.begin(), pos.end(), n) != pos.end();
        const auto f   = l.node_function(n);
        const bool buf = f.num_vars() == 1 && !kitty::get_bit(f, 0);
        const bool pi  = std::find(pis.begin(), pis.end(), n) != pis.end();
        SIM_CHECK(po || !out[n].empty(), "dangling", "nothing uses the output of %s", where<Lyt>(t).c_str());
        SIM_CHECK(out[n].size() <= (buf && !pi ? 3u : 1u), "fan-out", "%s feeds %zu tiles", where<Lyt>(t).c_str(), out[n].size());
        if (r.straight_inverters && f.num_vars() == 1 && kitty::get_bit(f, 0) && !pi)
        {
            const auto a = at[in[n][0]];
            for (const auto o : out[n])
            {
                const auto b = at[o];
                SIM_CHECK((a.x == t.x && b.x == t.x) || (a.y == t.y && b.y == t.y), "bent-inverter", "the inverter on %s is not straight", where<Lyt>(t).c_str());
            }
        }
    }
    std::map<uint64_t, uint64_t> val;
    std::set<uint64_t>           busy;
    const auto                   truth = s.values();
    const uint64_t               m     = (1ull << (1u << s.pis)) - 1;
    for (size_t i = 0; i < pis.size(); ++i)
    {
        val[pis[i]] = truth[i];
    }
    std::function<uint64_t(uint64_t)> eval = [&](uint64_t n) -> uint64_t
    {
        if (const auto i = val.find(n); i != val.end())
        {
            return i->second;
        }
        SIM_CHECK(busy.insert(n).second, "loop", "the layout has a combinational loop");
        std::vector<uint64_t> c;
        for (const auto g : in[n])
        {
            c.push_back(eval(g));
        }
        const auto f = l.node_function(n);
        uint64_t   v = 0;
        for (unsigned p = 0; p < (1u << s.pis); ++p)
        {
            unsigned k = 0;
            for (size_t j = 0; j < c.size(); ++j)
            {
                k |= static_cast<unsigned>((c[j] >> p) & 1) << j;
            }
            v |= static_cast<uint64_t>(kitty::get_bit(f, k) ? 1 : 0) << p;
        }
        return val[n] = v & m;
    };
    for (size_t i = 0; i < pos.size(); ++i)
    {
        const auto v = eval(pos[i]);
        SIM_CHECK(v == truth[static_cast<size_t>(s.pos[i])], "function", "output %zu computes %llx instead of %llx", i, (unsigned long long)v, (unsigned long long)truth[static_cast<size_t>(s.pos[i])]);
    }
    SIM_CHECK(val.size() == at.size(), "unused", "%zu of %zu placed nodes do not contribute to an output", at.size() - val.size(), at.size());
    SIM_CHECK(l.num_gates() == gates && l.num_wires() == wires && l.num_crossings() == crossings, "layout-counts", "the layout counts %zu gates, %zu wires and %zu crossings; there are %zu, %zu and %zu", (size_t)l.num_gates(),
              (size_t)l.num_wires(), (size_t)l.num_crossings(), gates, wires, crossings);
    if (r.names && s.named)
    {
        SIM_CHECK(l.get_layout_name() == s.name, "names", "the layout is called '%s'", l.get_layout_name().c_str());
        for (size_t i = 0; i < pis.size(); ++i)
        {
            SIM_CHECK(l.get_name(static_cast<mockturtle::node<Lyt>>(pis[i])) == "in" + std::to_string(i) + "x", "names", "input %zu is called '%s'", i, l.get_name(static_cast<mockturtle::node<Lyt>>(pis[i])).c_str());
        }
        for (size_t i = 0; i < pos.size(); ++i)
        {
            SIM_CHECK(l.get_output_name(static_cast<uint32_t>(i)) == "out" + std::to_string(i) + "y", "names", "output %zu is called '%s'", i, l.get_output_name(static_cast<uint32_t>(i)).c_str());
        }
    }
}
template <typename Lyt>
std::string picture(const Lyt& l)
{
    std::string s = std::to_string((int)l.x()) + "x" + std::to_string((int)l.y());
    l.foreach_node(
        [&](const auto& n)
        {
            if (!l.is_constant(n))
            {
                s += " " + where<Lyt>(l.get_tile(n)) + std::to_string((unsigned long long)l.node_function(n)._bits[0]);
                l.foreach_fanin(n, [&](const auto& f) { s += "<" + where<Lyt>(static_cast<fiction::tile<Lyt>>(f)); });
            }
        });
    return s;
}
}  // namespace net
