// small one-input gate skeletons for the scenarios that evaluate gates
#pragma once
#include "sidb_ref.hpp"

#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>

#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>

#include <algorithm>
#include <set>
#include <tuple>

namespace gates
{
using namespace ref;
using cell_t = fiction::sidb_technology::cell_type;

inline std::vector<kitty::dynamic_truth_table> spec1(bool invert)
{
    std::vector<kitty::dynamic_truth_table> s(1, kitty::dynamic_truth_table(1));
    kitty::create_from_binary_string(s[0], invert ? "01" : "10");
    return s;
}

using placed = std::set<std::tuple<int, int, int, int>>;
template <typename Lyt>
placed cells_of(const Lyt& l)
{
    placed r;
    l.foreach_cell([&](const auto& c) { r.emplace((int)c.y, (int)c.z, (int)c.x, (int)l.get_cell_type(c)); });
    return r;
}
inline std::string text(const placed& p)
{
    std::string s;
    for (const auto& [y, z, x, t] : p)
    {
        s += "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")" + std::to_string(t) + " ";
    }
    return s;
}

template <typename Lyt>
void random_gate_params(fiction::is_operational_params& op, bool filters)
{
    using P                  = fiction::is_operational_params;
    op.simulation_parameters = fiction::sidb_simulation_parameters{2, sim::pick("mu", {-0.32, -0.28, -0.25}), sim::pick("eps", {5.6, 5.6, 5.6, 4.0}), 5.0};
    op.sim_engine            = sim::pick("engine", {fiction::sidb_simulation_engine::QUICKEXACT, fiction::sidb_simulation_engine::EXGS});
    op.op_condition          = sim::pick("kinks", {P::operational_condition::TOLERATE_KINKS, P::operational_condition::REJECT_KINKS});
    if (filters)
    {
        op.strategy_to_analyze_operational_status = sim::pick("strategy", {P::operational_analysis_strategy::SIMULATION_ONLY, P::operational_analysis_strategy::SIMULATION_ONLY,
                                                                           P::operational_analysis_strategy::FILTER_THEN_SIMULATION, P::operational_analysis_strategy::FILTER_ONLY});
    }
    op.input_bdl_iterator_params.input_bdl_config = sim::pick("encoding", {fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED,
                                                                           fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED});
}

template <typename Lyt, typename TT>
bool operational(const Lyt& l, const std::vector<TT>& spec, const fiction::is_operational_params& op)
{
    return fiction::is_operational(l, spec, op).first == fiction::operational_status::OPERATIONAL;
}
}  // namespace gates
