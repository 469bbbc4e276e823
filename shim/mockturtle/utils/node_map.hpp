// Stand-in for mockturtle/utils/node_map.hpp: values attached to the nodes of a network, shared between copies
#pragma once
#include <cassert>
#include <cstdint>
#include <memory>
#include <unordered_map>
#include <vector>

#include <mockturtle/traits.hpp>

namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>>
class node_map
{
  public:
    using node            = typename Ntk::node;
    using signal          = typename Ntk::signal;
    using container_type  = std::vector<T>;
    using reference       = typename container_type::reference;
    using const_reference = typename container_type::const_reference;

    explicit node_map(const Ntk& n) : ntk(&n), data(std::make_shared<container_type>(n.size())) {}
    node_map(const Ntk& n, const T& init) : ntk(&n), data(std::make_shared<container_type>(n.size(), init)) {}
    auto            size() const { return data->size(); }
    node_map        copy() const
    {
        node_map m(*ntk);
        *m.data = *data;
        return m;
    }
    reference       operator[](const node& n) { return at(ntk->node_to_index(n)); }
    const_reference operator[](const node& n) const { return at(ntk->node_to_index(n)); }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    reference operator[](const signal& f)
    {
        return at(ntk->node_to_index(ntk->get_node(f)));
    }
    template <typename N = Ntk, typename = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    const_reference operator[](const signal& f) const
    {
        return at(ntk->node_to_index(ntk->get_node(f)));
    }
    void reset(const T& init = {})
    {
        data->clear();
        data->resize(ntk->size(), init);
    }
    void resize(const T& init = {})
    {
        if (ntk->size() > data->size())
        {
            data->resize(ntk->size(), init);
        }
    }

  private:
    reference       at(uint64_t i) { return data->at(i); }
    const_reference at(uint64_t i) const { return static_cast<const container_type&>(*data).at(i); }

    const Ntk*                      ntk;
    std::shared_ptr<container_type> data;
};
}  // namespace mockturtle
