// stand-in for mockturtle's DOT drawers: the interface fiction's drawers derive from
#pragma once
#include <mockturtle/traits.hpp>
#include <cstdint>
#include <string>
#include <vector>
namespace mockturtle
{
template <class Ntk>
class default_dot_drawer
{
  public:
    virtual ~default_dot_drawer() = default;
    virtual std::string node_label(const Ntk& ntk, const node<Ntk>& n) const
    {
        return std::to_string(ntk.node_to_index(n));
    }
    virtual std::string node_shape(const Ntk& ntk, const node<Ntk>& n) const
    {
        return ntk.is_constant(n) ? "box" : ntk.is_ci(n) ? "house" : "ellipse";
    }
    virtual uint32_t node_level(const Ntk&, const node<Ntk>&) const
    {
        return 0;
    }
    virtual std::string po_shape(const Ntk&, uint32_t) const
    {
        return "invhouse";
    }
    virtual std::string node_fillcolor(const Ntk& ntk, const node<Ntk>& n) const
    {
        return (ntk.is_constant(n) || ntk.is_ci(n)) ? "snow2" : "white";
    }
    virtual std::string po_fillcolor(const Ntk&, uint32_t) const
    {
        return "snow2";
    }
    virtual std::string signal_style(const Ntk& ntk, const signal<Ntk>& f) const
    {
        return ntk.is_complemented(f) ? "dashed" : "solid";
    }
    virtual bool draw_signal(const Ntk&, const node<Ntk>&, const signal<Ntk>&) const
    {
        return true;
    }
};
template <class Ntk>
class gate_dot_drawer : public default_dot_drawer<Ntk>
{
  public:
    std::string node_label(const Ntk& ntk, const node<Ntk>& n) const override
    {
        if (ntk.is_constant(n))
        {
            return "0";
        }
        if constexpr (has_is_and_v<Ntk>)
        {
            if (ntk.is_and(n)) return "AND";
        }
        if constexpr (has_is_or_v<Ntk>)
        {
            if (ntk.is_or(n)) return "OR";
        }
        if constexpr (has_is_xor_v<Ntk>)
        {
            if (ntk.is_xor(n)) return "XOR";
        }
        if constexpr (has_is_maj_v<Ntk>)
        {
            if (ntk.is_maj(n)) return "MAJ";
        }
        return default_dot_drawer<Ntk>::node_label(ntk, n);
    }
    std::string node_fillcolor(const Ntk& ntk, const node<Ntk>& n) const override
    {
        return ntk.is_constant(n) ? "snow2" : ntk.is_ci(n) ? "snow2" : "white";
    }
};
}  // namespace mockturtle
