// Stand-in for mockturtle/views/fanout_view.hpp: fan-outs of nodes
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <vector>
#include <mockturtle/networks/detail/foreach.hpp>
#include <mockturtle/networks/events.hpp>
#include <mockturtle/traits.hpp>
namespace mockturtle
{
struct fanout_view_params
{
    bool update_on_add{true};
    bool update_on_modified{true};
    bool update_on_delete{true};
};
template <typename Ntk, bool has_fanout_interface = has_foreach_fanout_v<Ntk>>
class fanout_view;
template <typename Ntk>
class fanout_view<Ntk, true> : public Ntk
{
  public:
    fanout_view(const Ntk& ntk, const fanout_view_params& = {}) : Ntk(ntk) {}
};
template <typename Ntk>
class fanout_view<Ntk, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;

    explicit fanout_view(const fanout_view_params& ps = {}) : Ntk(), _ps(ps) { init(); }
    explicit fanout_view(const Ntk& ntk, const fanout_view_params& ps = {}) : Ntk(ntk), _ps(ps) { init(); }
    fanout_view(const fanout_view& o) : Ntk(o), _ps(o._ps), _fanout(o._fanout) { listen(); }
    fanout_view& operator=(const fanout_view& o)
    {
        if (this != &o)
        {
            leave();
            Ntk::operator=(o);
            _ps     = o._ps;
            _fanout = o._fanout;
            listen();
        }
        return *this;
    }
    ~fanout_view() { leave(); }
    template <typename Fn>
    void foreach_fanout(const node& n, Fn&& fn) const
    {
        detail::foreach_element(_fanout[n].begin(), _fanout[n].end(), fn);
    }
    void              update_fanout() { compute(); }
    std::vector<node> fanout(const node& n) const { return _fanout[n]; }

  private:
    void init()
    {
        compute();
        listen();
    }
    void listen()
    {
        if (!_ps.update_on_add)
        {
            return;
        }
        add_event = std::make_shared<std::function<void(const node&)>>(
            [this](const node& n)
            {
                _fanout.resize(Ntk::size());
                Ntk::foreach_fanin(n, [&, this](const auto& f) { _fanout[Ntk::get_node(f)].push_back(n); });
            });
        Ntk::events().on_add.push_back(add_event);
    }
    void leave()
    {
        if (add_event)
        {
            auto& v = Ntk::events().on_add;
            v.erase(std::remove(v.begin(), v.end(), add_event), v.end());
            add_event.reset();
        }
    }
    void compute()
    {
        _fanout.assign(Ntk::size(), {});
        Ntk::foreach_gate(
            [&](const auto& n)
            {
                Ntk::foreach_fanin(n,
                                   [&](const auto& c)
                                   {
                                       auto& fo = _fanout[Ntk::get_node(c)];
                                       if (std::find(fo.begin(), fo.end(), n) == fo.end())
                                       {
                                           fo.push_back(n);
                                       }
                                   });
            });
    }
    fanout_view_params                                _ps;
    std::vector<std::vector<node>>                    _fanout;
    std::shared_ptr<std::function<void(const node&)>> add_event;
};
template <class T>
fanout_view(const T&, const fanout_view_params& = {}) -> fanout_view<T>;
}  // namespace mockturtle
