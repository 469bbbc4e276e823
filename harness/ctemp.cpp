// S13: the critical temperature is the lowest one at which unwanted states are occupied more than permitted, whatever engine, schedule or entropy.
#include "gate.hpp"

#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/verify_logic_match.hpp>

#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace ct
{
using namespace ref;
using P      = fiction::is_operational_params;
using engine = fiction::sidb_simulation_engine;

struct job;
job*& current()
{
    thread_local job* j = nullptr;
    return j;
}
// a layout type of our own: what QuickSim returns for it is recorded here
template <typename Base>
struct watched : Base
{
    using Base::Base;
    watched clone() const { return watched{Base::clone()}; }
};
using lyt_t = watched<lyt100>;
using cds_t = fiction::charge_distribution_surface<lyt_t>;

struct state
{
    double energy{};
    bool   wanted{};
};
struct expectation
{
    bool   zero{};
    double gap{std::numeric_limits<double>::infinity()};  // meV
    size_t valid{};
    std::vector<std::vector<state>> patterns{};
};

struct job
{
    bool                                            gate{};
    lyt_t                                           lyt{};
    std::vector<kitty::dynamic_truth_table>         spec{};
    fiction::critical_temperature_params            ps{};
    fiction::critical_temperature_stats             st{};
    double                                          result{};
    bool                                            prepared{};  // the overload with prepared input patterns
    std::vector<std::optional<std::set<std::string>>> heard{};   // what QuickSim delivered, call by call
    size_t                                          repeated{};

    bool kinks() const { return ps.operational_params.op_condition == P::operational_condition::REJECT_KINKS; }

    static model model_of(const lyt_t& l, const fiction::sidb_simulation_parameters& sp)
    {
        model m{};
        m.lat    = L100;
        m.mu     = sp.mu_minus;
        m.eps    = sp.epsilon_r;
        m.lambda = sp.lambda_tf;
        l.foreach_cell([&](const auto& c) { m.sites.push_back(site{(int)c.x, (int)c.y, (int)c.z}); });
        std::sort(m.sites.begin(), m.sites.end());
        m.finish();
        return m;
    }
    static std::vector<int> charges_of(const std::string& k)
    {
        std::vector<int> c;
        for (const char x : k)
        {
            c.push_back(x == '-' ? -1 : x == '+' ? 1 : 0);
        }
        return c;
    }

    void draw(bool as_gate)
    {
        *this = job{};
        gate  = as_gate;
        auto& op = ps.operational_params;
        if (gate)
        {
            const int y    = 0;
            const auto put = [&](int x, int row, gates::cell_t t) { lyt.assign_cell_type({x, row, 0}, t); };
            const int  wires = sim::chance("two-wires", 6) ? 2 : 1;
            const int  a = static_cast<int>(sim::pick<int64_t>("gap1", {0, 0, 1, 2})), b = static_cast<int>(sim::pick<int64_t>("gap2", {0, 0, 0, -1, 1, 2})),
                       c = static_cast<int>(sim::pick<int64_t>("gap3", {0, 0, -1, 1}));
            for (int w = 0; w < wires; ++w)
            {
                const int r = y + w * static_cast<int>(sim::choose("rows", 3, 8));
                put(0, r, gates::cell_t::INPUT);
                put(3, r, gates::cell_t::INPUT);
                put(6 + a, r, gates::cell_t::NORMAL);
                put(8 + a, r, gates::cell_t::NORMAL);
                put(12 + a + b, r, gates::cell_t::OUTPUT);
                put(14 + a + b, r, gates::cell_t::OUTPUT);
                if (wires == 2 || sim::chance("end", 80))
                {
                    put(18 + a + b + c, r, gates::cell_t::NORMAL);
                }
            }
            if (wires == 1)
            {
                for (auto n = sim::pick<int64_t>("extra", {0, 0, 0, 1, 2}); n > 0; --n)
                {
                    const int x = static_cast<int>(sim::choose("x", 4, 20)), r = static_cast<int>(sim::choose("y", 1, 6));
                    put(x, r, gates::cell_t::NORMAL);
                }
                spec = gates::spec1(sim::chance("invert", 15));
            }
            else
            {
                spec.assign(2, kitty::dynamic_truth_table(2));
                kitty::create_from_binary_string(spec[0], "1010");
                kitty::create_from_binary_string(spec[1], "1100");
                if (sim::chance("swap", 30))
                {
                    std::swap(spec[0], spec[1]);
                }
            }
            op.input_bdl_iterator_params.input_bdl_config = sim::pick("encoding", {fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED,
                                                                                   fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED});
            prepared = sim::chance("prepared", 40);
            const auto e = sim::choose("engine", 0, wires == 2 ? 2 : 3);
            op.sim_engine = e == 0 ? engine::QUICKEXACT : e == 1 ? engine::CLUSTERCOMPLETE : e == 2 ? engine::QUICKSIM : engine::EXGS;
        }
        else
        {
            place(lyt, random_sites("site", static_cast<int>(sim::choose("n", 0, 8)), static_cast<int>(sim::choose("w", 1, 16)), static_cast<int>(sim::choose("h", 0, 5)), sim::chance("pairs", 60)));
            const auto e  = sim::choose("engine", 0, 2);
            op.sim_engine = e == 0 ? engine::QUICKEXACT : e == 1 ? engine::CLUSTERCOMPLETE : engine::QUICKSIM;
        }
        const int base           = op.sim_engine != engine::QUICKSIM && spec.size() < 2 && sim::chance("three-state", 20) ? 3 : 2;
        op.simulation_parameters = fiction::sidb_simulation_parameters{static_cast<uint8_t>(base), sim::pick("mu", {-0.32, -0.32, -0.28, -0.25, -0.2}), sim::pick("eps", {5.6, 5.6, 4.0, 8.0}),
                                                                       sim::pick("lambda", {5.0, 5.0, 3.0})};
        ps.confidence_level      = sim::pick("confidence", {0.99, 0.99, 0.9999, 0.999, 0.5, 0.75});
        ps.max_temperature       = sim::pick("max", {60.0, 60.0, 20.0, 120.5, 5.0, 0.5});
        ps.iteration_steps       = static_cast<uint64_t>(sim::choose("iterations", 0, 4));
        ps.alpha                 = sim::pick("alpha", {0.7, 0.0, 0.95, 1.0});
        std::string s;
        lyt.foreach_cell([&](const auto& c) { s += "(" + std::to_string(c.x) + "," + std::to_string(c.y) + "," + std::to_string(c.z) + ")" + std::to_string((int)lyt.get_cell_type(c)); });
        sim::describe("%s engine=%d base=%d mu=%g eps=%g lambda=%g confidence=%g max=%g iterations=%llu alpha=%g encoding=%d prepared=%d inputs=%zu %s", gate ? "gate" : "layout", (int)op.sim_engine,
                      base, op.simulation_parameters.mu_minus, op.simulation_parameters.epsilon_r, op.simulation_parameters.lambda_tf, ps.confidence_level, ps.max_temperature,
                      (unsigned long long)ps.iteration_steps, ps.alpha, (int)op.input_bdl_iterator_params.input_bdl_config, (int)prepared, spec.empty() ? size_t{0} : (size_t)spec[0].num_vars(), s.c_str());
    }

    // the states of a layout: all valid ones, or those QuickSim delivered
    std::vector<std::string> states_of(const model& m, size_t call)
    {
        std::vector<std::string> r;
        if (ps.operational_params.sim_engine == engine::QUICKSIM)
        {
            SIM_CHECK(call < heard.size(), "calls", "QuickSim was to be called for input pattern %zu", call);
            if (heard[call].has_value())
            {
                r.assign(heard[call]->begin(), heard[call]->end());
            }
            return r;
        }
        for (const auto& [k, v] : m.enumerate(ps.operational_params.simulation_parameters.base))
        {
            if (v == verdict::border)
            {
                sim::discard("borderline");
            }
            r.push_back(k);
        }
        return r;
    }
    static void distinct(std::vector<double> e)
    {
        std::sort(e.begin(), e.end());
        for (size_t i = 1; i < e.size(); ++i)
        {
            if (e[i] - e[i - 1] > 1e-8 && e[i] - e[i - 1] < 1e-5)
            {
                sim::discard("borderline");
            }
        }
    }
    expectation expected()
    {
        expectation x{};
        const auto& sp = ps.operational_params.simulation_parameters;
        if (lyt.is_empty())
        {
            x.zero = true;
            return x;
        }
        std::vector<lyt_t> layouts;
        if (gate)
        {
            layouts = fiction::generate_bdl_input_pattern_layouts(lyt, ps.operational_params.input_bdl_iterator_params);
        }
        else
        {
            layouts.push_back(lyt);
        }
        const auto outs = gate ? fiction::detect_bdl_pairs(lyt, gates::cell_t::OUTPUT, ps.operational_params.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params) :
                                 std::vector<fiction::bdl_pair<fiction::cell<lyt_t>>>{};
        const auto in_wires  = gate ? fiction::detect_bdl_wires(lyt, ps.operational_params.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::INPUT) :
                                      std::vector<fiction::bdl_wire<lyt_t>>{};
        const auto out_wires = gate ? fiction::detect_bdl_wires(lyt, ps.operational_params.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT) :
                                      std::vector<fiction::bdl_wire<lyt_t>>{};
        for (size_t i = 0; i < layouts.size(); ++i)
        {
            const auto m = model_of(layouts[i], sp);
            if (gate)
            {
                for (size_t k = 0; k < m.n(); ++k)
                {
                    const double p = -m.vint(std::vector<int>(m.n(), -1), k);
                    if (std::fabs(p + m.mu_plus()) < 1e-7)
                    {
                        sim::discard("borderline");
                    }
                    if (p > -m.mu_plus())
                    {
                        x.zero = true;
                        sim::probe("positive");
                        return x;
                    }
                }
            }
            const auto keys = states_of(m, i);
            x.valid         = keys.size();
            if (keys.empty())
            {
                x.zero = true;
                sim::probe("no-states");
                return x;
            }
            std::vector<state>  states;
            std::vector<double> es;
            double              low = 1e300;
            for (const auto& k : keys)
            {
                const auto c = charges_of(k);
                state      s{m.energy(c), true};
                for (size_t o = 0; o < outs.size(); ++o)
                {
                    const site at{(int)outs[o].lower.x, (int)outs[o].lower.y, (int)outs[o].lower.z};
                    const auto n = static_cast<size_t>(std::find(m.sites.begin(), m.sites.end(), at) - m.sites.begin());
                    s.wanted     = s.wanted && (c.at(n) != 0) == kitty::get_bit(spec[o], i);
                }
                if (gate && kinks())
                {
                    cds_t cds{layouts[i]};
                    cds.assign_physical_parameters(sp);
                    for (size_t n = 0; n < m.n(); ++n)
                    {
                        cds.assign_charge_state(co(m.sites[n]), c[n] < 0 ? fiction::sidb_charge_state::NEGATIVE : c[n] > 0 ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL);
                    }
                    cds.update_after_charge_change();
                    P p{};
                    p.op_condition = P::operational_condition::REJECT_KINKS;
                    s.wanted       = fiction::verify_logic_match(cds, p, spec, i, in_wires, out_wires) == fiction::operational_status::OPERATIONAL;
                }
                low = std::min(low, s.energy);
                es.push_back(s.energy);
                states.push_back(s);
            }
            distinct(es);
            bool ground = false;
            for (auto& s : states)
            {
                const bool lowest = s.energy - low < 1e-7;
                if (!gate)
                {
                    s.wanted = lowest;
                }
                ground = ground || (lowest && s.wanted);
            }
            if (!ground)
            {
                x.zero = true;
            }
            else
            {
                for (const auto& s : states)
                {
                    if (!s.wanted && s.energy - low > 1e-7)
                    {
                        x.gap = std::min(x.gap, (s.energy - low) * 1000);
                    }
                }
            }
            x.patterns.push_back(states);
        }
        return x;
    }
    // the share of unwanted states at a temperature
    static double share(const std::vector<state>& v, double t)
    {
        const double kt  = 1.38064852e-23 / 1.602176634e-19 * t;
        double       low = 1e300, z = 0, u = 0;
        for (const auto& s : v)
        {
            low = std::min(low, s.energy);
        }
        for (const auto& s : v)
        {
            const double b = std::exp(-(s.energy - low) / kt);
            z += b;
            u += s.wanted ? 0 : b;
        }
        return u / z;
    }
    static double tolerance(double p, double t) { return p * 1e-7 / (8.617e-5 * t) + 1e-9; }
    // nothing wrong with `t`? otherwise says what
    std::string verdict_on(const expectation& x, double t) const
    {
        if (x.zero)
        {
            return t == 0 ? "" : "no temperature at which it works, reported are " + std::to_string(t) + " K";
        }
        const double most = 1 - ps.confidence_level;
        if (!(t > 0) || t > ps.max_temperature)
        {
            return "out of range: " + std::to_string(t) + " K of " + std::to_string(ps.max_temperature) + " K";
        }
        const auto steps = static_cast<long>(std::llround(t * 100));
        if (std::fabs(t - ps.max_temperature) > 1e-9)
        {
            if (std::fabs(static_cast<double>(steps) / 100 - t) > 1e-9)
            {
                return "not a multiple of 0.01 K: " + std::to_string(t);
            }
            double p = 0, tol = 0;
            for (const auto& v : x.patterns)
            {
                const double q = share(v, t);
                if (q + tolerance(q, t) >= p + tol)
                {
                    p   = q;
                    tol = tolerance(q, t);
                }
            }
            if (!(p > most - tol))
            {
                return "the unwanted states are occupied with " + std::to_string(p) + " at " + std::to_string(t) + " K, which is permitted (" + std::to_string(most) + ")";
            }
        }
        for (long k = 1; k < steps; ++k)
        {
            const double at = static_cast<double>(k) / 100;
            for (const auto& v : x.patterns)
            {
                const double q = share(v, at);
                if (q - tolerance(q, at) > most)
                {
                    return "the unwanted states are occupied with " + std::to_string(q) + " at " + std::to_string(at) + " K already (permitted: " + std::to_string(most) + "), reported are " +
                           std::to_string(t) + " K";
                }
            }
        }
        return "";
    }
    void judge()
    {
        const sim::quiet q;
        const auto       x = expected();
        if (gate && kinks())
        {
            judge_kinks(x);
            return;
        }
        const auto bad = verdict_on(x, result);
        SIM_CHECK(bad.empty(), x.zero ? "not-zero" : "temperature", "%s", bad.c_str());
        SIM_CHECK((gate && x.zero) || st.num_valid_lyt == x.valid, "count", "%zu physically valid states were found, %llu are reported", x.valid, (unsigned long long)st.num_valid_lyt);
        if (!x.zero)
        {
            SIM_CHECK(std::isinf(x.gap) ? std::isinf(st.energy_between_ground_state_and_first_erroneous) : std::fabs(st.energy_between_ground_state_and_first_erroneous - x.gap) < 1e-3, "gap",
                      "the first unwanted state lies %g meV above the ground state, reported are %g meV", x.gap, st.energy_between_ground_state_and_first_erroneous);
        }
        common(x);
    }
    void common(const expectation& x)
    {
        SIM_CHECK(st.algorithm_name == fiction::sidb_simulation_engine_name(ps.operational_params.sim_engine), "engine", "the reported engine is %s", st.algorithm_name.c_str());
        SIM_CHECK(st.simulation_parameters.mu_minus == ps.operational_params.simulation_parameters.mu_minus &&
                      st.simulation_parameters.epsilon_r == ps.operational_params.simulation_parameters.epsilon_r &&
                      st.simulation_parameters.lambda_tf == ps.operational_params.simulation_parameters.lambda_tf &&
                      st.simulation_parameters.base == ps.operational_params.simulation_parameters.base,
                  "parameters", "the reported simulation parameters are others");
        sim::probe(x.zero ? "zero" : result == ps.max_temperature ? "maximum" : "temperature");
        if (repeated > 0)
        {
            sim::probe("repeated");
        }
        sim::note(static_cast<uint64_t>(std::llround(result * 100)));
        sim::nontrivial();
    }
    void judge_kinks(const expectation& x)
    {
        // rejecting more states does not raise the temperature
        const auto bad = verdict_on(x, result);
        if (bad.empty())
        {
            common(x);
            return;
        }
        // the known deviation: every state is counted as a wanted one, and unwanted ones in addition as unwanted
        auto y = x;
        y.zero = y.patterns.empty() || y.patterns.size() < (size_t{1} << spec[0].num_vars());
        for (auto& v : y.patterns)
        {
            const auto n = v.size();
            for (size_t i = 0; i < n; ++i)
            {
                for (size_t k = 0; k < n; ++k)
                {
                    if (k != i && std::fabs(v[k].energy - v[i].energy) < 1e-7)
                    {
                        sim::discard("degenerate");
                    }
                }
                if (!v[i].wanted)
                {
                    v.push_back({v[i].energy, true});
                }
            }
        }
        const auto other = verdict_on(y, result);
        SIM_CHECK(other.empty(), "kinks", "%s", bad.c_str());
        sim::probe("kinks-known");
        // reported now and then only, so that it does not crowd out anything else
        SIM_CHECK(!sim::chance("report", 3), "kinks-counted-as-wanted", "%s", bad.c_str());
        common(x);
    }
};

template <typename R>
void listen(const lyt_t& lyt, const R& r)
{
    const sim::quiet q;
    auto&            j = *current();
    const auto       m = job::model_of(lyt, j.ps.operational_params.simulation_parameters);
    if (!r.has_value())
    {
        j.heard.emplace_back();
        return;
    }
    std::set<std::string> s;
    for (const auto& c : r->charge_distributions)
    {
        const auto ch = charges(c, m);
        SIM_CHECK(m.check(ch) != verdict::invalid, "invalid", "QuickSim delivered %s", model::key(ch).c_str());
        j.repeated += s.insert(model::key(ch)).second ? 0 : 1;
    }
    j.heard.emplace_back(s);
}
template <typename Base>
auto quicksim(const watched<Base>& lyt, const fiction::quicksim_params& qs)
{
    auto r = fiction::quicksim<watched<Base>>(lyt, qs);
    listen(lyt, r);
    return r;
}
template <typename L, typename Base>
std::optional<fiction::sidb_simulation_result<L>> quicksim(const watched<Base>& lyt, const fiction::quicksim_params& qs)
{
    auto r = fiction::quicksim<L>(static_cast<const L&>(lyt), qs);
    listen(lyt, r);
    return r;
}
}  // namespace ct

namespace
{
using namespace ct;

void work(job& j)
{
    const auto& op = j.ps.operational_params;
    {
        const sim::quiet q;
        current() = &j;
    }
    if (!j.gate)
    {
        j.result = fiction::critical_temperature_non_gate_based(j.lyt, j.ps, &j.st);
    }
    else if (!j.prepared)
    {
        j.result = fiction::critical_temperature_gate_based(j.lyt, j.spec, j.ps, &j.st);
    }
    else
    {
        std::vector<lyt_t>                                   layouts;
        std::vector<fiction::bdl_pair<fiction::cell<lyt_t>>> outs;
        std::vector<fiction::bdl_wire<lyt_t>>                iw, ow;
        {
            const sim::quiet q;
            layouts = fiction::generate_bdl_input_pattern_layouts(j.lyt, op.input_bdl_iterator_params);
            outs    = fiction::detect_bdl_pairs(j.lyt, gates::cell_t::OUTPUT, op.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params);
            iw      = fiction::detect_bdl_wires(j.lyt, op.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::INPUT);
            ow      = fiction::detect_bdl_wires(j.lyt, op.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT);
        }
        j.result = fiction::critical_temperature_gate_based(layouts, j.spec, j.ps, outs, iw, ow, &j.st);
    }
}
// is the layout one the algorithm is defined on (as many outputs and inputs as the function has)?
void draw(job& j, bool gate)
{
    const sim::quiet q;
    j.draw(gate);
    if (!gate)
    {
        return;
    }
    const auto& bp   = j.ps.operational_params.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params;
    const auto  outs = fiction::detect_bdl_pairs(j.lyt, gates::cell_t::OUTPUT, bp).size();
    const auto  ins  = fiction::detect_bdl_pairs(j.lyt, gates::cell_t::INPUT, bp).size();
    const auto  iw   = fiction::detect_bdl_wires(j.lyt, j.ps.operational_params.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::INPUT).size();
    const auto  ow   = fiction::detect_bdl_wires(j.lyt, j.ps.operational_params.input_bdl_iterator_params.bdl_wire_params, fiction::bdl_wire_selection::OUTPUT).size();
    if (outs != j.spec.size() || ow != outs || ins != j.spec[0].num_vars() || iw != ins)
    {
        sim::discard("not a gate");
    }
}
void cores()
{
    const sim::quiet q;
    sim::set_hardware_concurrency(static_cast<unsigned>(sim::choose("cores", 0, 4)));
}
}  // namespace

SIM_SCENARIO(layout, 4)
{
    job j;
    draw(j, false);
    cores();
    work(j);
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    j.judge();
}
SIM_SCENARIO(gate, 5)
{
    job j;
    draw(j, true);
    cores();
    work(j);
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    j.judge();
}
SIM_SCENARIO(kinks, 1)
{
    job j;
    draw(j, true);
    j.ps.operational_params.op_condition = P::operational_condition::REJECT_KINKS;
    cores();
    work(j);
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    j.judge();
}
SIM_SCENARIO(two_users, 3)
{
    job j[2];
    draw(j[0], sim::chance("gate", 50));
    draw(j[1], sim::chance("gate", 50));
    if (j[0].gate == j[1].gate && sim::chance("same", 60))
    {
        // the same layout (a shallow copy) for both
        j[1].lyt  = j[0].lyt;
        j[1].spec = j[0].spec;
        j[1].ps.operational_params.input_bdl_iterator_params = j[0].ps.operational_params.input_bdl_iterator_params;
        if (j[1].spec.size() > 1)
        {
            j[1].ps.operational_params.simulation_parameters.base = 2;
            if (j[1].ps.operational_params.sim_engine == engine::EXGS)
            {
                j[1].ps.operational_params.sim_engine = engine::QUICKEXACT;
            }
        }
    }
    cores();
    {
        std::thread t{[&] { work(j[1]); }};
        work(j[0]);
        t.join();
    }
    SIM_CHECK(sim::threads_unjoined() == 0, "threads-left", "%u threads were not joined on return", sim::threads_unjoined());
    j[0].judge();
    j[1].judge();
    sim::probe("callers");
}
