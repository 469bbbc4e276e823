// Stand-in for mockturtle/networks/events.hpp
#pragma once
#include <functional>
#include <memory>
#include <vector>

#include <mockturtle/traits.hpp>

namespace mockturtle
{
template <class Ntk>
struct network_events
{
    using add_event_type      = void(const typename Ntk::node&);
    using modified_event_type = void(const typename Ntk::node&, const std::vector<typename Ntk::signal>&);
    using delete_event_type   = void(const typename Ntk::node&);
    std::vector<std::shared_ptr<std::function<add_event_type>>>      on_add{};
    std::vector<std::shared_ptr<std::function<modified_event_type>>> on_modified{};
    std::vector<std::shared_ptr<std::function<delete_event_type>>>   on_delete{};
};
}  // namespace mockturtle
