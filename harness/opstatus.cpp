// S14: whether a gate is operational, for which inputs, and whether kinks alone are to blame, follows from the ground states the engine delivered.
#include "gate.hpp"

#include <fiction/algorithms/simulation/sidb/is_operational.hpp>

#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace os
{
using namespace ref;
using gates::cell_t;
using P      = fiction::is_operational_params;
using engine = fiction::sidb_simulation_engine;
using dir    = fiction::port_direction;

struct job;
job*& current()
{
    thread_local job* j = nullptr;
    return j;
}
// a layout type of our own: the simulation engines of is_operational reach the functions below for it
template <typename Base>
struct watched : Base
{
    using Base::Base;
    watched clone() const { return watched{Base::clone()}; }
};
using lyt_t  = watched<lyt100>;
using cds_t  = fiction::charge_distribution_surface<lyt_t>;
using cell   = fiction::cell<lyt_t>;
using wire_t = fiction::bdl_wire<lyt_t>;
using result = fiction::sidb_simulation_result<lyt_t>;
using tt_t   = kitty::dynamic_truth_table;

// the dot where the signal comes from and the one where it goes to
struct pair
{
    site near{}, far{};
    bool forward{true};  // a 1 is a negative far dot
};
using wire = std::vector<pair>;

enum class api
{
    status,
    status_wires,
    status_prepared,
    patterns,
    patterns_wires,
    kink_patterns,
    kink_patterns_wires,
    kinks,
    kinks_wires
};
struct state
{
    std::map<site, int> charge{};
    double              energy{};
};
enum class outcome
{
    fine,
    kink,
    wrong
};

struct job
{
    lyt_t                                   lyt{};
    std::vector<wire>                       ins{}, outs{};
    std::vector<std::pair<site, site>>      inputs{};  // close to the wire, away from it
    std::set<site>                          fixed{};   // perturbers at the outputs
    size_t                                  canvas{};
    std::vector<tt_t>                       spec{};
    P                                       ps{};
    api                                     call{};
    bool                                    scripted{}, hand_canvas{};
    bool                                    through{};
    std::vector<std::set<site>>             expect{};  // the SiDBs for each input pattern
    // what happened
    std::map<size_t, std::optional<std::vector<state>>> heard{};
    size_t                                              calls{};
    fiction::operational_status                         status{};
    size_t                                              invocations{};
    std::set<uint64_t>                                  set{};
    bool                                                flag{};
    // made ahead
    std::vector<lyt_t>  layouts{};
    std::vector<wire_t> iw{}, ow{};
    lyt_t               canvas_lyt{};

    size_t n_in() const { return ins.size(); }
    bool   bit_in(uint64_t p, size_t w) const { return ((p >> (n_in() - 1 - w)) & 1u) != 0; }
    bool   rejects() const
    {
        return ps.op_condition == P::operational_condition::REJECT_KINKS || call >= api::kink_patterns;
    }
    bool filtered() const
    {
        // only these APIs consider the canvas
        return canvas > 0 && rejects() && ps.strategy_to_analyze_operational_status != P::operational_analysis_strategy::SIMULATION_ONLY && call <= api::status_prepared;
    }

    void draw()
    {
        *this        = job{};
        const bool works = sim::chance("works", 25);  // a wire that is known to work for most parameters
        const auto o     = sim::choose("orientation", 0, works ? 1 : 3);  // EAST WEST SOUTH NORTH
        const bool horizontal = o < 2, mirrored = (o & 1) != 0;
        const int  U   = 60;
        const int  gap = horizontal ? works ? 5 : static_cast<int>(sim::choose("gap", 4, 5)) : 2;
        const auto at  = [&](int u, int v) { return horizontal ? site{mirrored ? U - u : u, v, 0} : site{v, mirrored ? U - u : u, 0}; };
        const auto put = [&](const site& s, cell_t t) { lyt.assign_cell_type(co(s), t); };
        const auto width = [&]() { return works ? 3 : horizontal ? static_cast<int>(sim::pick<int64_t>("width", {2, 3, 3})) : 1; };
        int        u = 0;
        const auto pair_at = [&](int& at_u, int w, int row, cell_t t)
        {
            pair p{at(at_u, row), at(at_u + w, row), true};
            put(p.near, t);
            put(p.far, t);
            at_u += w + gap;
            return p;
        };
        through            = sim::chance("through", works ? 20 : 40);
        const int lane     = horizontal ? 3 : 7;
        const int end_type = works ? static_cast<int>(sim::choose("end", 2, 3)) : static_cast<int>(sim::choose("end", 0, 3));
        if (through)
        {
            const int rows = sim::chance("two-wires", 40) ? 2 : 1, inner = static_cast<int>(sim::pick<int64_t>("inner", {1, 1, 2}));
            const int w = width(), sp = lane + static_cast<int>(sim::choose("spacing", 0, 5));
            for (int r = 0; r < rows; ++r)
            {
                u            = 0;
                wire       in{}, out{};
                const auto i = pair_at(u, w, r * sp, cell_t::INPUT);
                inputs.emplace_back(i.far, i.near);
                for (int k = 0; k < inner; ++k)
                {
                    in.push_back(pair_at(u, w, r * sp, cell_t::NORMAL));
                }
                out = in;
                out.push_back(pair_at(u, w, r * sp, cell_t::OUTPUT));
                ins.push_back(in);
                outs.push_back(out);
                if (end_type > 0)
                {
                    const auto e = at(u + end_type - 1, r * sp);
                    put(e, cell_t::NORMAL);
                    fixed.insert(e);
                }
            }
        }
        else
        {
            const int  n = works ? 1 : static_cast<int>(sim::pick<int64_t>("inputs", {1, 1, 2, 2, 3})), m = !works && sim::chance("two-outputs", 30) ? 2 : 1;
            const int  in_inner = static_cast<int>(sim::choose("in-inner", 1, n < 3 && !works ? 2 : 1)), out_inner = static_cast<int>(sim::choose("out-inner", mirrored ? 1 : 0, 1));
            const int  w = width(), sp = lane + static_cast<int>(sim::choose("spacing", 0, 4));
            for (int r = 0; r < n; ++r)
            {
                u = 0;
                wire       in{};
                const auto i = pair_at(u, w, r * sp, cell_t::INPUT);
                inputs.emplace_back(i.far, i.near);
                for (int k = 0; k < in_inner; ++k)
                {
                    in.push_back(pair_at(u, w, r * sp, cell_t::NORMAL));
                }
                ins.push_back(in);
            }
            const int from = u - gap + (horizontal ? 2 : 1);
            const bool ahead = works || sim::chance("canvas-ahead", 50);  // the canvas is a piece of wire
            const int room = ahead ? 2 * gap + w : (horizontal ? 7 : 4) + static_cast<int>(sim::choose("room", 0, 2));
            const int start = u - gap + room;
            canvas          = ahead ? 0 : static_cast<size_t>(sim::choose("canvas", 0, 3));
            std::set<site> used;
            for (int r = 0; ahead && r < std::min(n, m); ++r)
            {
                int at_u = u;
                const auto p = pair_at(at_u, w, r * sp, cell_t::LOGIC);
                used.insert(p.near);
                used.insert(p.far);
            }
            for (size_t k = 0; k < canvas; ++k)
            {
                const auto s = at(static_cast<int>(sim::choose("cu", from, start - (horizontal ? 2 : 1))), static_cast<int>(sim::choose("cv", 0, (n - 1) * sp + 2)));
                if (used.insert(s).second)
                {
                    put(s, cell_t::LOGIC);
                }
            }
            canvas = used.size();
            for (int r = 0; r < m; ++r)
            {
                u = start;
                wire out{};
                for (int k = 0; k < out_inner; ++k)
                {
                    out.push_back(pair_at(u, w, r * sp, cell_t::NORMAL));
                }
                out.push_back(pair_at(u, w, r * sp, cell_t::OUTPUT));
                outs.push_back(out);
                if (end_type > 0)
                {
                    const auto e = at(u + end_type - 1, r * sp);
                    put(e, cell_t::NORMAL);
                    fixed.insert(e);
                }
            }
        }
        // the function: any
        const auto vars = static_cast<uint32_t>(ins.size());
        const auto kind = works ? 0 : sim::choose("function", 0, 3);
        for (size_t f = 0; f < outs.size(); ++f)
        {
            tt_t t(vars);
            for (uint64_t p = 0; p < t.num_bits(); ++p)
            {
                const bool b = kind < 2 ? ((p >> (vars - 1 - std::min<size_t>(f, vars - 1))) & 1u) != (kind == 1 ? 1u : 0u) : sim::chance("bit", 50);
                if (b)
                {
                    kitty::set_bit(t, p);
                }
            }
            spec.push_back(t);
        }
        scripted = lyt.num_cells() > 14 || sim::chance("scripted", works ? 20 : 50);
        ps.input_bdl_iterator_params.input_bdl_config = sim::pick("encoding", {fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED,
                                                                               fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED});
        ps.op_condition = sim::pick("kinks", {P::operational_condition::TOLERATE_KINKS, P::operational_condition::REJECT_KINKS});
        const bool small = lyt.num_cells() <= 10;
        const auto e     = sim::choose("engine", 0, scripted || small ? 3 : 1);
        ps.sim_engine    = e == 0 ? engine::QUICKEXACT : e == 1 ? engine::CLUSTERCOMPLETE : e == 2 ? engine::EXGS : engine::QUICKSIM;
        if (!scripted && ps.sim_engine == engine::QUICKSIM && (lyt.num_cells() > 7 || !sim::chance("real-quicksim", 5)))
        {
            ps.sim_engine = engine::QUICKEXACT;
        }
        const int base = ps.sim_engine != engine::QUICKSIM && (scripted || (small && lyt.num_cells() <= 8)) && sim::chance("three-state", 20) ? 3 : 2;
        ps.simulation_parameters = fiction::sidb_simulation_parameters{static_cast<uint8_t>(base), sim::pick("mu", {-0.32, -0.32, -0.28, -0.25}), sim::pick("eps", {5.6, 5.6, 5.6, 4.0}),
                                                                       sim::pick("lambda", {5.0, 5.0, 3.0})};
        ps.strategy_to_analyze_operational_status =
            sim::pick("strategy", {P::operational_analysis_strategy::SIMULATION_ONLY, P::operational_analysis_strategy::SIMULATION_ONLY, P::operational_analysis_strategy::FILTER_THEN_SIMULATION,
                                   P::operational_analysis_strategy::FILTER_ONLY});
        call = static_cast<api>(sim::choose("api", 0, 8));
        hand_canvas = canvas > 0 && sim::chance("hand-canvas", 50);
        finish();
    }
    void finish()
    {
        if (filtered() && ps.simulation_parameters.base == 3)
        {
            ps.simulation_parameters.base = 2;  // the filters enumerate two-state canvases
        }
        // the layouts for each input
        expect.clear();
        std::set<site> all;
        lyt.foreach_cell([&](const auto& c) { all.insert(site{(int)c.x, (int)c.y, (int)c.z}); });
        for (uint64_t p = 0; p < (uint64_t{1} << n_in()); ++p)
        {
            auto s = all;
            for (size_t w = 0; w < n_in(); ++w)
            {
                const auto& [close, away] = inputs[w];
                const bool absence        = ps.input_bdl_iterator_params.input_bdl_config == fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
                if (bit_in(p, w))
                {
                    s.erase(away);
                }
                else
                {
                    s.erase(close);
                    if (absence)
                    {
                        s.erase(away);
                    }
                }
            }
            expect.push_back(s);
        }
        iw      = fiction::detect_bdl_wires(lyt, ps.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::INPUT);
        ow      = fiction::detect_bdl_wires(lyt, ps.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT);
        layouts = fiction::generate_bdl_input_pattern_layouts(lyt, ps.input_bdl_iterator_params);
        canvas_lyt = lyt_t{};
        for (const auto& c : lyt.get_cells_by_type(cell_t::LOGIC))
        {
            canvas_lyt.assign_cell_type(c, cell_t::LOGIC);
        }
        std::string s, f;
        lyt.foreach_cell([&](const auto& c) { s += "(" + std::to_string(c.x) + "," + std::to_string(c.y) + "," + std::to_string(c.z) + ")" + std::to_string((int)lyt.get_cell_type(c)); });
        for (const auto& t : spec)
        {
            f += kitty::to_binary(t) + " ";
        }
        sim::describe("api=%d %s engine=%d base=%d mu=%g eps=%g lambda=%g strategy=%d kinks=%d encoding=%d function=%s canvas=%d %s", (int)call, scripted ? "scripted" : "real", (int)ps.sim_engine,
                      (int)ps.simulation_parameters.base, ps.simulation_parameters.mu_minus, ps.simulation_parameters.epsilon_r, ps.simulation_parameters.lambda_tf,
                      (int)ps.strategy_to_analyze_operational_status, (int)ps.op_condition, (int)ps.input_bdl_iterator_params.input_bdl_config, f.c_str(), (int)hand_canvas, s.c_str());
        check_wires("input", iw, ins, true);
        check_wires("output", ow, outs, false);
    }
    static site of(const cell& c) { return site{(int)c.x, (int)c.y, (int)c.z}; }
    void        check_wires(const char* what, const std::vector<wire_t>& got, const std::vector<wire>& want, bool input) const
    {
        SIM_CHECK(got.size() == want.size(), "wires", "%zu %s wires are detected, there are %zu", got.size(), what, want.size());
        for (size_t w = 0; w < got.size(); ++w)
        {
            std::set<std::pair<site, site>> a, b;
            for (const auto& p : got[w].pairs)
            {
                a.emplace(std::min(of(p.upper), of(p.lower)), std::max(of(p.upper), of(p.lower)));
            }
            for (const auto& p : want[w])
            {
                b.emplace(std::min(p.near, p.far), std::max(p.near, p.far));
            }
            if (input)
            {
                b.emplace(std::min(inputs[w].first, inputs[w].second), std::max(inputs[w].first, inputs[w].second));
            }
            SIM_CHECK(a == b, "wires", "%s wire %zu does not consist of the %zu pairs it has been built from", what, w, b.size());
        }
    }
    model model_of(size_t p) const
    {
        model m{};
        m.lat    = L100;
        m.mu     = ps.simulation_parameters.mu_minus;
        m.eps    = ps.simulation_parameters.epsilon_r;
        m.lambda = ps.simulation_parameters.lambda_tf;
        m.sites.assign(expect[p].begin(), expect[p].end());
        m.finish();
        return m;
    }
    size_t pattern_of(const lyt_t& l) const
    {
        std::set<site> s;
        l.foreach_cell([&](const auto& c) { s.insert(site{(int)c.x, (int)c.y, (int)c.z}); });
        const auto it = std::find(expect.begin(), expect.end(), s);
        SIM_CHECK(it != expect.end(), "input", "a layout is simulated that is none of the gate with an input applied");
        return static_cast<size_t>(it - expect.begin());
    }
    static bool holds(const state& s, const pair& p, bool bit)
    {
        const auto n = s.charge.at(p.near), f = s.charge.at(p.far);
        return bit ? n == 0 && f == -1 : n == -1 && f == 0;
    }
    outcome judge_state(const state& s, uint64_t p) const
    {
        for (size_t o = 0; o < outs.size(); ++o)
        {
            if (!holds(s, outs[o].back(), kitty::get_bit(spec[o], p)))
            {
                return outcome::wrong;
            }
        }
        for (size_t o = 0; o < outs.size(); ++o)
        {
            for (const auto& q : outs[o])
            {
                if (!holds(s, q, kitty::get_bit(spec[o], p)))
                {
                    return outcome::kink;
                }
            }
        }
        for (size_t w = 0; w < ins.size(); ++w)
        {
            for (const auto& q : ins[w])
            {
                if (!holds(s, q, bit_in(p, w)))
                {
                    return outcome::kink;
                }
            }
        }
        return outcome::fine;
    }
    outcome judge_states(const std::vector<state>& v, uint64_t p) const
    {
        if (v.empty())
        {
            return outcome::wrong;
        }
        double low = 1e300;
        for (const auto& s : v)
        {
            low = std::min(low, s.energy);
        }
        auto   r = outcome::fine;
        size_t n = 0, bad = 0, kinked = 0;
        for (const auto& s : v)
        {
            const double d = s.energy - low;
            if (d > 1e-8 && d < 1e-5)
            {
                sim::discard("borderline");
            }
            if (d <= 1e-8)
            {
                const auto x = judge_state(s, p);
                r            = std::max(r, x);
                ++n;
                bad += x == outcome::wrong ? 1 : 0;
                kinked += x == outcome::kink ? 1 : 0;
            }
        }
        if (n > 1)
        {
            sim::probe("degenerate");
        }
        if (bad > 0 && kinked > 0)
        {
            sim::probe("mismatch-and-kink");
        }
        return r;
    }
    // may SiDBs be positively charged, given this input? The answer of the model
    bool positive(size_t p) const
    {
        if (ps.simulation_parameters.base != 2)
        {
            return false;
        }
        const auto m = model_of(p);
        for (size_t k = 0; k < m.n(); ++k)
        {
            const double v = -m.vint(std::vector<int>(m.n(), -1), k);
            if (std::fabs(v + m.mu_plus()) < 1e-7)
            {
                sim::discard("borderline");
            }
            if (v > -m.mu_plus())
            {
                return true;
            }
        }
        return false;
    }
    outcome truth(size_t p, bool& comparable) const
    {
        const auto         m = model_of(p);
        std::vector<state> v;
        for (const auto& [k, x] : m.enumerate(2))
        {
            if (x == verdict::border)
            {
                sim::discard("borderline");
            }
            std::vector<int> c;
            state            s{};
            for (size_t i = 0; i < m.n(); ++i)
            {
                c.push_back(k[i] == '-' ? -1 : 0);
                s.charge[m.sites[i]] = c.back();
            }
            s.energy = m.energy(c);
            v.push_back(s);
        }
        double low = 1e300;
        for (const auto& s : v)
        {
            low = std::min(low, s.energy);
        }
        for (const auto& s : v)
        {
            if (s.energy - low < 1e-5)
            {
                for (const auto& [at, c] : s.charge)
                {
                    bool io = fixed.count(at) > 0;
                    for (const auto& i : inputs)
                    {
                        io = io || i.first == at || i.second == at;
                    }
                    // the filters take the perturbers for negative
                    comparable = comparable && !(io && c != -1);
                }
            }
        }
        return judge_states(v, p);
    }

    void judge()
    {
        const sim::quiet       q;
        const auto             n = expect.size();
        std::vector<outcome>   by(n, outcome::fine);
        std::vector<bool>      pos(n), known(n);
        for (size_t p = 0; p < n; ++p)
        {
            pos[p]   = positive(p);
            const auto it = heard.find(p);
            known[p] = pos[p] || it != heard.end();
            if (pos[p])
            {
                SIM_CHECK(it == heard.end(), "positive", "input %zu is simulated with two states although SiDBs may be positive", p);
                by[p] = outcome::wrong;
                sim::probe("positive");
            }
            else if (it != heard.end())
            {
                by[p] = it->second.has_value() ? judge_states(*it->second, p) : outcome::wrong;
                if (!it->second.has_value() || it->second->empty())
                {
                    sim::probe("no-result");
                }
            }
        }
        const auto bad = [&](outcome x) { return x == outcome::wrong || (x == outcome::kink && rejects()); };
        SIM_CHECK(calls == heard.size(), "again", "%zu simulations for %zu inputs", calls, heard.size());
        std::string told;
        for (size_t p = 0; p < n; ++p)
        {
            told += known[p] ? pos[p] ? "+" : by[p] == outcome::wrong ? "!" : by[p] == outcome::kink ? "k" : "." : "?";
        }
        if (call <= api::status_prepared)
        {
            SIM_CHECK(invocations == calls, "count", "%zu simulations are reported, there were %zu", invocations, calls);
            const bool op    = status == fiction::operational_status::OPERATIONAL;
            bool       found = false, all = true;
            for (size_t p = 0; p < n; ++p)
            {
                found = found || (known[p] && bad(by[p]));
                all   = all && known[p];
            }
            if (filtered() && calls == 0 && !found)
            {
                // nothing but filters
                if (op)
                {
                    SIM_CHECK(ps.strategy_to_analyze_operational_status == P::operational_analysis_strategy::FILTER_ONLY, "unsimulated", "operational without a simulation");
                    sim::probe("passed-filters");
                }
                else
                {
                    bool comparable = true, wrong = false;
                    for (size_t p = 0; p < n; ++p)
                    {
                        wrong = wrong || bad(truth(p, comparable));
                    }
                    SIM_CHECK(wrong || !comparable, "filtered-out", "the filters discard a gate that is operational");
                    sim::probe("filtered");
                }
            }
            else if (filtered() && found && ps.strategy_to_analyze_operational_status == P::operational_analysis_strategy::FILTER_ONLY)
            {
                // positive charges: one of the filters
                SIM_CHECK(!op && calls == 0, "filter-positive", "SiDBs may be positive, but the filters let the gate pass");
            }
            else
            {
                SIM_CHECK(!(op && found), "operational", "the gate is reported operational, but its inputs are: %s", told.c_str());
                SIM_CHECK(op ? all : found, op ? "untested" : "non-operational", "the gate is reported %s, but its inputs are: %s", op ? "operational" : "non-operational", told.c_str());
                sim::probe(op ? "operational" : "non-operational");
            }
        }
        else
        {
            bool all_known = true;
            for (size_t p = 0; p < n; ++p)
            {
                all_known = all_known && known[p];
            }
            if (call <= api::kink_patterns_wires)
            {
                SIM_CHECK(all_known, "untested", "not every input was simulated: %s", told.c_str());
                const bool kinks = call >= api::kink_patterns;
                for (size_t p = 0; p < n; ++p)
                {
                    const bool want = kinks ? by[p] == outcome::kink : !bad(by[p]);
                    SIM_CHECK((set.count(p) > 0) == want, kinks ? "kink-induced" : "operational-inputs", "input %zu is%s among the reported ones (%s), but the inputs are: %s", p, want ? " not" : "",
                              kinks ? "non-operational due to kinks" : "operational", told.c_str());
                }
                SIM_CHECK(set.empty() || *set.rbegin() < n, "range", "an input that does not exist is reported");
                sim::probe(kinks ? "kink-inputs" : "inputs");
            }
            else
            {
                bool wrong = false, kinked = false;
                for (size_t p = 0; p < n; ++p)
                {
                    wrong  = wrong || (known[p] && by[p] == outcome::wrong);
                    kinked = kinked || (known[p] && by[p] == outcome::kink);
                }
                SIM_CHECK(!(flag && wrong), "kinks-alone", "kinks alone are to blame, but the inputs are: %s", told.c_str());
                SIM_CHECK(!flag || (kinked && all_known), "kinks-unproved", "kinks are said to be to blame, but the inputs are: %s", told.c_str());
                SIM_CHECK(flag || wrong || (all_known && !kinked), "kinks-denied", "kinks are not to blame, but the inputs are: %s", told.c_str());
                sim::probe(flag ? "kink-induced" : "not-kink-induced");
            }
        }
        uint64_t h = static_cast<uint64_t>(call);
        for (const char c : told)
        {
            h = h * 31 + static_cast<unsigned char>(c);
        }
        sim::note(h);
        sim::nontrivial();
    }
};

// a surface with these charges and the energy of the configuration whose first `level` SiDBs are negative
cds_t surface(const lyt_t& l, const fiction::sidb_simulation_parameters& sp, const std::map<site, int>& charge, size_t level)
{
    cds_t cds{l};
    cds.assign_physical_parameters(sp);
    cds.assign_base_number(sp.base);
    size_t i = 0;
    for (const auto& [s, c] : charge)
    {
        cds.assign_charge_state(co(s), i++ < level ? fiction::sidb_charge_state::NEGATIVE : fiction::sidb_charge_state::NEUTRAL);
    }
    cds.update_after_charge_change(fiction::dependent_cell_mode::FIXED, fiction::energy_calculation::UPDATE_ENERGY);
    for (const auto& [s, c] : charge)
    {
        cds.assign_charge_state(co(s), c < 0 ? fiction::sidb_charge_state::NEGATIVE : c > 0 ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL);
    }
    cds.update_after_charge_change(fiction::dependent_cell_mode::FIXED, fiction::energy_calculation::KEEP_OLD_ENERGY_VALUE);
    return cds;
}

template <typename Params, typename Real>
std::optional<result> simulate(const lyt_t& l, const Params& given, engine which, const Real& real)
{
    job* j = nullptr;
    bool scripted = false;
    {
        const sim::quiet q;
        j = current();
        scripted = j->scripted;
    }
    std::optional<result> r;
    if (!scripted)
    {
        r = real();
    }
    const sim::quiet q;
    const auto&      sp   = j->ps.simulation_parameters;
    const auto&      have = given;
    SIM_CHECK(which == j->ps.sim_engine, "engine", "engine %d is used instead of %d", (int)which, (int)j->ps.sim_engine);
    SIM_CHECK(have.base == sp.base && have.mu_minus == sp.mu_minus && have.epsilon_r == sp.epsilon_r && have.lambda_tf == sp.lambda_tf, "parameters",
              "the simulation is run with other physical parameters");
    const auto p = j->pattern_of(l);
    ++j->calls;
    if (scripted)
    {
        result              s{};
        const auto          count = sim::fault("engine-finds-nothing", 100) > 0 ? int64_t{0} : sim::pick<int64_t>("states", {1, 1, 1, 1, 1, 2, 2, 3});
        const bool          tie   = sim::chance("tie", 50);
        for (int64_t k = 0; k < count; ++k)
        {
            state x{};
            for (const auto& t : j->expect[p])
            {
                x.charge[t] = j->through || j->fixed.count(t) > 0 ? -1 : static_cast<int>(sim::choose("charge", 0, 1)) - 1;
            }
            const auto set = [&](const pair& q2, bool bit)
            {
                x.charge[q2.near] = bit ? 0 : -1;
                x.charge[q2.far]  = bit ? -1 : 0;
            };
            for (size_t w = 0; w < j->ins.size(); ++w)
            {
                for (const auto& q2 : j->ins[w])
                {
                    set(q2, j->bit_in(p, w));
                }
            }
            for (size_t o = 0; o < j->outs.size(); ++o)
            {
                for (const auto& q2 : j->outs[o])
                {
                    set(q2, kitty::get_bit(j->spec[o], p));
                }
            }
            // something goes wrong
            if (sim::fault("engine-finds-other-state", 300) > 0)
            {
                const bool  in = sim::chance("in", 40);
                auto&       ws = in ? j->ins : j->outs;
                const auto& w  = ws[static_cast<size_t>(sim::choose("wire", 0, static_cast<int64_t>(ws.size()) - 1))];
                if (!w.empty())
                {
                    const auto& q2 = w[static_cast<size_t>(sim::choose("pair", 0, static_cast<int64_t>(w.size()) - 1))];
                    switch (sim::choose("how", 0, sp.base == 3 ? 4 : 2))
                    {
                        case 0: std::swap(x.charge[q2.near], x.charge[q2.far]); break;
                        case 1: x.charge[q2.near] = x.charge[q2.far] = -1; break;
                        case 2: x.charge[q2.near] = x.charge[q2.far] = 0; break;
                        case 3: x.charge[q2.near] = 1; break;
                        default: x.charge[q2.far] = 1; break;
                    }
                }
            }
            const auto level = tie ? size_t{3} : static_cast<size_t>(sim::pick<int64_t>("level", {0, 3, 4}));
            s.charge_distributions.push_back(surface(l, sp, x.charge, std::min(level, x.charge.size())));
        }
        r = s;
        if (count == 0 && which == engine::QUICKSIM && sim::chance("nullopt", 50))
        {
            r.reset();
        }
    }
    if (!r.has_value())
    {
        j->heard[p] = std::nullopt;
        return r;
    }
    std::vector<state> v;
    for (const auto& c : r->charge_distributions)
    {
        state x{};
        for (const auto& t : j->expect[p])
        {
            x.charge[t] = static_cast<int>(fiction::charge_state_to_sign(c.get_charge_state(co(t))));
        }
        x.energy = c.get_electrostatic_potential_energy();
        v.push_back(x);
    }
    j->heard[p] = v;
    return r;
}

template <typename Base>
result quickexact(const watched<Base>& l, const fiction::quickexact_params<cell>& p)
{
    return *simulate(l, p.simulation_parameters, engine::QUICKEXACT, [&] { return std::optional<result>{fiction::quickexact<watched<Base>>(l, p)}; });
}
template <typename Base>
result clustercomplete(const watched<Base>& l, const fiction::clustercomplete_params<cell>& p)
{
    return *simulate(l, p.simulation_parameters, engine::CLUSTERCOMPLETE, [&] { return std::optional<result>{fiction::clustercomplete<watched<Base>>(l, p)}; });
}
template <typename Base>
result exhaustive_ground_state_simulation(const watched<Base>& l, const fiction::sidb_simulation_parameters& p)
{
    return *simulate(l, p, engine::EXGS, [&] { return std::optional<result>{fiction::exhaustive_ground_state_simulation<watched<Base>>(l, p)}; });
}
template <typename Base>
std::optional<result> quicksim(const watched<Base>& l, const fiction::quicksim_params& p)
{
    return simulate(l, p.simulation_parameters, engine::QUICKSIM, [&] { return fiction::quicksim<watched<Base>>(l, p); });
}
}  // namespace os

namespace
{
using namespace os;

void work(job& j)
{
    {
        const sim::quiet q;
        current() = &j;
    }
    const auto canvas = j.hand_canvas ? std::optional<lyt_t>{j.canvas_lyt} : std::nullopt;
    const auto keep   = [&](const auto& r)
    {
        j.status      = r.first;
        j.invocations = r.second;
    };
    switch (j.call)
    {
        case api::status: keep(fiction::is_operational(j.lyt, j.spec, j.ps)); break;
        case api::status_wires: keep(fiction::is_operational(j.lyt, j.spec, j.ps, j.iw, j.ow, canvas)); break;
        case api::status_prepared: keep(fiction::is_operational(j.layouts, j.spec, j.ps, j.iw, j.ow, canvas)); break;
        case api::patterns: j.set = fiction::operational_input_patterns(j.lyt, j.spec, j.ps); break;
        case api::patterns_wires: j.set = fiction::operational_input_patterns(j.lyt, j.spec, j.ps, j.iw, j.ow, canvas); break;
        case api::kink_patterns: j.set = fiction::kink_induced_non_operational_input_patterns(j.lyt, j.spec, j.ps); break;
        case api::kink_patterns_wires: j.set = fiction::kink_induced_non_operational_input_patterns(j.lyt, j.spec, j.ps, j.iw, j.ow, canvas); break;
        case api::kinks: j.flag = fiction::is_kink_induced_non_operational(j.lyt, j.spec, j.ps); break;
        default: j.flag = fiction::is_kink_induced_non_operational(j.lyt, j.spec, j.ps, j.iw, j.ow, canvas); break;
    }
}
void draw(job& j)
{
    const sim::quiet q;
    j.draw();
}
void cores()
{
    const sim::quiet q;
    sim::set_hardware_concurrency(static_cast<unsigned>(sim::choose("cores", 0, 4)));
}
void joined()
{
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
}
}  // namespace

SIM_SCENARIO(gate, 6)
{
    job j;
    draw(j);
    cores();
    work(j);
    joined();
    j.judge();
}
SIM_SCENARIO(two_users, 3)
{
    job j[2];
    draw(j[0]);
    if (sim::chance("same", 70))
    {
        // the same gate, parameters and prepared layouts for both
        const sim::quiet q;
        j[1] = j[0];
        if (sim::chance("other-call", 60))
        {
            j[1].call = static_cast<api>(sim::choose("api", 0, 8));
        }
        if (sim::chance("other-script", 50))
        {
            j[1].scripted = true;
        }
        j[1].finish();
        if (j[1].expect == j[0].expect)
        {
            j[1].layouts = j[0].layouts;
        }
    }
    else
    {
        draw(j[1]);
    }
    cores();
    {
        std::thread t{[&] { work(j[1]); }};
        work(j[0]);
        t.join();
    }
    joined();
    j[0].judge();
    j[1].judge();
    sim::probe("callers");
}
// a wrong number of prepared layouts is refused
SIM_SCENARIO(refused, 1)
{
    job j;
    draw(j);
    {
        const sim::quiet q;
        j.call = api::status_prepared;
        if (sim::chance("no-function", 25))
        {
            j.spec.clear();
        }
        else if (sim::chance("too-many", 50))
        {
            j.layouts.push_back(j.layouts.front());
        }
        else
        {
            j.layouts.resize(static_cast<size_t>(sim::choose("kept", 1, static_cast<int64_t>(j.layouts.size()) - 1)), lyt_t{});
        }
    }
    bool refused = false;
    try
    {
        work(j);
    }
    catch (const std::invalid_argument&)
    {
        refused = true;
    }
    SIM_CHECK(refused, "refused", "%zu layouts for %zu functions of %zu inputs are accepted", j.layouts.size(), j.spec.size(), j.n_in());
    SIM_CHECK(j.calls == 0, "refused", "simulated nevertheless");
    sim::probe("refused");
    sim::nontrivial();
}
