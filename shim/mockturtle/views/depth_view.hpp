// Stand-in for mockturtle/views/depth_view.hpp: levels of nodes
#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
#include <mockturtle/traits.hpp>
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements{false};
    bool pi_cost{false};
};
template <class Ntk>
struct unit_cost
{
    uint32_t operator()(const Ntk&, const typename Ntk::node&) const { return 1u; }
};
template <class Ntk, class NodeCostFn = unit_cost<Ntk>, bool has_depth_interface = has_depth_v<Ntk> && has_level_v<Ntk>>
class depth_view;
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, true> : public Ntk
{
  public:
    depth_view(const Ntk& ntk) : Ntk(ntk) {}
};
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(const NodeCostFn& c = {}, const depth_view_params& = {}) : Ntk(), cost(c) { update_levels(); }
    explicit depth_view(const Ntk& ntk, const NodeCostFn& c = {}, const depth_view_params& = {}) : Ntk(ntk), cost(c) { update_levels(); }
    uint32_t depth() const { return _depth; }
    uint32_t level(const node& n) const { return _levels.at(Ntk::node_to_index(n)); }
    bool     is_on_critical_path(const node& n) const { return _crit.at(Ntk::node_to_index(n)); }
    void     set_level(const node& n, uint32_t l) { _levels.at(Ntk::node_to_index(n)) = l; }
    void     set_depth(uint32_t d) { _depth = d; }
    void     update_levels()
    {
        _levels.assign(this->size(), 0);
        _crit.assign(this->size(), false);
        this->incr_trav_id();
        _depth = 0;
        this->foreach_po([&](const auto& f) { _depth = std::max(_depth, compute(this->get_node(f))); });
        this->foreach_po(
            [&](const auto& f)
            {
                if (_levels[this->node_to_index(this->get_node(f))] == _depth)
                {
                    critical(this->get_node(f));
                }
            });
    }

  private:
    uint32_t compute(const node& n)
    {
        if (this->visited(n) == this->trav_id())
        {
            return _levels[this->node_to_index(n)];
        }
        this->set_visited(n, this->trav_id());
        if (this->is_constant(n) || this->is_pi(n))
        {
            return _levels[this->node_to_index(n)] = 0;
        }
        uint32_t level{0};
        this->foreach_fanin(n, [&](const auto& f) { level = std::max(level, compute(this->get_node(f))); });
        return _levels[this->node_to_index(n)] = level + cost(*this, n);
    }
    void critical(const node& n)
    {
        _crit[this->node_to_index(n)] = true;
        if (!this->is_constant(n) && !this->is_pi(n))
        {
            const auto lvl = _levels[this->node_to_index(n)];
            this->foreach_fanin(n,
                                [&](const auto& f)
                                {
                                    const auto c = this->get_node(f);
                                    if (_levels[this->node_to_index(c)] + cost(*this, n) == lvl && !_crit[this->node_to_index(c)])
                                    {
                                        critical(c);
                                    }
                                });
        }
    }
    NodeCostFn            cost;
    std::vector<uint32_t> _levels;
    std::vector<bool>     _crit;
    uint32_t              _depth{0};
};
template <class T>
depth_view(const T&) -> depth_view<T>;
}  // namespace mockturtle
