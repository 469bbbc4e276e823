// Stand-in for mockturtle/algorithms/cleanup.hpp: a copy of a network without dangling nodes
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
#include <mockturtle/traits.hpp>
#include <mockturtle/utils/node_map.hpp>
#include <mockturtle/views/topo_view.hpp>
namespace mockturtle
{
template <class NtkDest, class NtkSrc>
std::pair<NtkDest, node_map<signal<NtkDest>, NtkSrc>> initialize_copy_network(const NtkSrc& src)
{
    node_map<signal<NtkDest>, NtkSrc> old2new(src);
    NtkDest                           dest;
    old2new[src.get_node(src.get_constant(false))] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false)))
    {
        old2new[src.get_node(src.get_constant(true))] = dest.get_constant(true);
    }
    src.foreach_ci([&](const auto& n) { old2new[n] = dest.create_pi(); });
    return {dest, old2new};
}
template <class NtkSrc, class NtkDest = NtkSrc>
NtkDest cleanup_dangling(const NtkSrc& ntk, bool remove_dangling_pis = false, bool = false)
{
    NtkDest dest;
    if constexpr (has_get_network_name_v<NtkSrc> && has_set_network_name_v<NtkDest>)
    {
        dest.set_network_name(ntk.get_network_name());
    }
    node_map<signal<NtkDest>, NtkSrc> old2new(ntk);
    old2new[ntk.get_node(ntk.get_constant(false))] = dest.get_constant(false);
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false)))
    {
        old2new[ntk.get_node(ntk.get_constant(true))] = dest.get_constant(true);
    }
    ntk.foreach_ci(
        [&](const auto& n)
        {
            if (remove_dangling_pis && ntk.fanout_size(n) == 0)
            {
                old2new[n] = dest.get_constant(false);
            }
            else
            {
                old2new[n] = dest.create_pi();
                if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
                {
                    if (const auto s = ntk.make_signal(n); ntk.has_name(s))
                    {
                        dest.set_name(old2new[n], ntk.get_name(s));
                    }
                }
            }
        });
    const topo_view<NtkSrc> topo{ntk};
    topo.foreach_node(
        [&](const auto& n)
        {
            if (ntk.is_constant(n) || ntk.is_ci(n))
            {
                return;
            }
            std::vector<signal<NtkDest>> children;
            ntk.foreach_fanin(n,
                              [&](const auto& f)
                              {
                                  const auto s = old2new[ntk.get_node(f)];
                                  children.push_back(ntk.is_complemented(f) ? dest.create_not(s) : s);
                              });
            old2new[n] = dest.clone_node(ntk, n, children);
            if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
            {
                if (const auto s = ntk.make_signal(n); ntk.has_name(s))
                {
                    dest.set_name(old2new[n], ntk.get_name(s));
                }
            }
        });
    uint32_t i = 0;
    ntk.foreach_po(
        [&](const auto& f)
        {
            const auto s = old2new[ntk.get_node(f)];
            dest.create_po(ntk.is_complemented(f) ? dest.create_not(s) : s);
            if constexpr (has_has_output_name_v<NtkSrc> && has_get_output_name_v<NtkSrc> && has_set_output_name_v<NtkDest>)
            {
                if (ntk.has_output_name(i))
                {
                    dest.set_output_name(i, ntk.get_output_name(i));
                }
            }
            ++i;
        });
    return dest;
}
}  // namespace mockturtle
