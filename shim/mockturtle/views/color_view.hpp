// Stand-in for mockturtle/views/color_view.hpp: colors of nodes kept beside the network
#pragma once
#include <cstdint>
#include <memory>
#include <vector>
#include <mockturtle/traits.hpp>
namespace mockturtle
{
template <class Ntk>
class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;

    explicit out_of_place_color_view(const Ntk& ntk) : Ntk(ntk), _values(std::make_shared<std::vector<uint32_t>>(ntk.size(), 0)) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const
    {
        for (auto& v : *_values)
        {
            v = c;
        }
    }
    uint32_t color(const node& n) const { return (*_values)[this->node_to_index(n)]; }
    template <typename T = node, typename = std::enable_if_t<!std::is_same_v<typename Ntk::signal, typename Ntk::node> && std::is_same_v<T, typename Ntk::signal>>>
    uint32_t color(const T& s) const
    {
        return color(this->get_node(s));
    }
    void paint(const node& n) const { (*_values)[this->node_to_index(n)] = value; }
    void paint(const node& n, uint32_t c) const { (*_values)[this->node_to_index(n)] = c; }
    template <typename Pred>
    bool eval_color(const node& n, Pred&& pred) const
    {
        return pred(color(n));
    }
    template <typename Pred>
    bool eval_color(const node& a, const node& b, Pred&& pred) const
    {
        return pred(color(a), color(b));
    }

  protected:
    std::shared_ptr<std::vector<uint32_t>> _values;
    mutable uint32_t                       value{0};
};
}  // namespace mockturtle
