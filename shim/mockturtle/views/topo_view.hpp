// Stand-in for mockturtle/views/topo_view.hpp: the constants, all inputs and the transitive fan-in of the outputs in topological order
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <optional>
#include <vector>
#include <mockturtle/networks/detail/foreach.hpp>
#include <mockturtle/traits.hpp>
#include <mockturtle/views/immutable_view.hpp>
namespace mockturtle
{
template <class Ntk, bool sorted = is_topologically_sorted_v<Ntk>>
class topo_view;
template <class Ntk>
class topo_view<Ntk, false> : public immutable_view<Ntk>
{
  public:
    static constexpr bool is_topologically_sorted = true;
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;

    topo_view(const Ntk& ntk) : immutable_view<Ntk>(ntk) { update_topo(); }
    auto size() const { return static_cast<uint32_t>(topo_order.size()); }
    auto num_gates() const
    {
        uint32_t offset = 1u + this->num_pis();
        offset += this->get_node(this->get_constant(true)) != this->get_node(this->get_constant(false));
        return static_cast<uint32_t>(topo_order.size() - offset);
    }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(std::find(topo_order.begin(), topo_order.end(), n) - topo_order.begin()); }
    node     index_to_node(uint32_t i) const { return topo_order.at(i); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        detail::foreach_element(topo_order.begin(), topo_order.end(), fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        detail::foreach_element(topo_order.begin() + (size() - num_gates()), topo_order.end(), fn);
    }
    template <typename Fn>
    void foreach_node_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_order.rbegin(), topo_order.rend(), fn);
    }
    template <typename Fn>
    void foreach_gate_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_order.rbegin(), topo_order.rend() - (size() - num_gates()), fn);
    }
    void update_topo()
    {
        this->incr_trav_id();
        this->incr_trav_id();
        topo_order.reserve(Ntk::size());
        const auto c0 = this->get_node(this->get_constant(false));
        topo_order.push_back(c0);
        this->set_visited(c0, this->trav_id());
        if (const auto c1 = this->get_node(this->get_constant(true)); this->visited(c1) != this->trav_id())
        {
            topo_order.push_back(c1);
            this->set_visited(c1, this->trav_id());
        }
        this->foreach_ci(
            [this](auto n)
            {
                if (this->visited(n) != this->trav_id())
                {
                    topo_order.push_back(n);
                    this->set_visited(n, this->trav_id());
                }
            });
        Ntk::foreach_co([this](auto f) { create_topo_rec(this->get_node(f)); });
    }

  private:
    void create_topo_rec(const node& n)
    {
        if (this->visited(n) == this->trav_id())
        {
            return;
        }
        this->set_visited(n, this->trav_id() - 1);
        this->foreach_fanin(n, [this](const signal& f) { create_topo_rec(this->get_node(f)); });
        this->set_visited(n, this->trav_id());
        topo_order.push_back(n);
    }
    std::vector<node> topo_order;
};
template <class Ntk>
class topo_view<Ntk, true> : public Ntk
{
  public:
    static constexpr bool is_topologically_sorted = true;
    topo_view(const Ntk& ntk) : Ntk(ntk) {}
};
template <class T>
topo_view(const T&) -> topo_view<T>;
}  // namespace mockturtle
