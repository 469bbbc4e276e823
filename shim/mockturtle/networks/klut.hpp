// Stand-in for mockturtle/networks/klut.hpp: k-LUT network with structural hashing
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <vector>

#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/operations.hpp>
#include <mockturtle/networks/detail/foreach.hpp>
#include <mockturtle/networks/events.hpp>
#include <mockturtle/networks/storage.hpp>
#include <mockturtle/traits.hpp>
#include <mockturtle/utils/algorithm.hpp>
#include <mockturtle/utils/truth_table_cache.hpp>

namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table> cache;
    uint32_t                                      trav_id{0};
};
// data[0].h1: fan-out size, data[0].h2: application value, data[1].h1: function literal, data[1].h2: visited
struct klut_storage_node : mixed_fanin_node<2>
{
    bool operator==(const klut_storage_node& o) const { return data[1].h1 == o.data[1].h1 && children == o.children; }
};
using klut_storage = storage<klut_storage_node, klut_storage_data>;

class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;
    using base_type                      = klut_network;
    using storage                        = std::shared_ptr<klut_storage>;
    using node                           = uint64_t;
    using signal                         = uint64_t;

    klut_network() : _storage(std::make_shared<klut_storage>()), _events(std::make_shared<network_events<base_type>>()) { _init(); }
    klut_network(std::shared_ptr<klut_storage> s) : _storage(std::move(s)), _events(std::make_shared<network_events<base_type>>()) {}
    klut_network clone() const { return {std::make_shared<klut_storage>(*_storage)}; }

  private:
    static kitty::dynamic_truth_table tt(uint32_t vars, uint64_t word)
    {
        kitty::dynamic_truth_table t(vars);
        t._bits[0] = word;
        return t;
    }

  protected:
    void _init()
    {
        _storage->nodes.emplace_back();
        _storage->data.cache.insert(kitty::dynamic_truth_table(0));
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
        const auto fn                 = [this](uint32_t vars, uint64_t word) { _storage->data.cache.insert(tt(vars, word)); };
        fn(1, 0x2);   // 2 buf, 3 not
        fn(2, 0x8);   // 4 and, 5 nand
        fn(2, 0xe);   // 6 or, 7 nor
        fn(2, 0x2);   // 8 lt, 9 ge (as in fiction's gate-level layouts)
        fn(2, 0x4);   // 10 gt, 11 le
        fn(2, 0x6);   // 12 xor, 13 xnor
        fn(3, 0xe8);  // 14 maj
        fn(3, 0xd8);  // 16 ite
        fn(3, 0x96);  // 18 xor3
        for (auto& n : _storage->nodes)
        {
            n.data[0].h1 = 0;
        }
    }

  public:
    signal get_constant(bool value = false) const { return value ? 1 : 0; }
    signal create_pi()
    {
        const auto index = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(index);
        _storage->nodes[index].data[1].h1 = 2;
        return index;
    }
    uint32_t create_po(const signal& f)
    {
        _storage->nodes[f].data[0].h1++;
        const auto po = static_cast<uint32_t>(_storage->outputs.size());
        _storage->outputs.emplace_back(f);
        return po;
    }
    bool   is_combinational() const { return true; }
    bool   is_constant(const node& n) const { return n <= 1; }
    bool   is_ci(const node& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) != _storage->inputs.end(); }
    bool   is_pi(const node& n) const { return is_ci(n); }
    bool   constant_value(const node& n) const { return n == 1; }
    signal create_buf(const signal& a) { return a; }
    signal create_not(const signal& a) { return _create_node({a}, 3); }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_nor(signal a, signal b) { return _create_node({a, b}, 7); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_gt(signal a, signal b) { return _create_node({a, b}, 10); }
    signal create_ge(signal a, signal b) { return _create_node({a, b}, 9); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_xnor(signal a, signal b) { return _create_node({a, b}, 13); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_and(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); });
    }
    signal create_nary_or(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); });
    }
    signal create_nary_xor(const std::vector<signal>& fs)
    {
        return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); });
    }
    signal _create_node(const std::vector<signal>& children, uint32_t literal)
    {
        klut_storage_node nd;
        std::copy(children.begin(), children.end(), std::back_inserter(nd.children));
        nd.data[1].h1 = literal;
        for (size_t i = 2; i < _storage->nodes.size(); ++i)
        {
            if (!_storage->nodes[i].children.empty() && _storage->nodes[i] == nd)
            {
                return i;
            }
        }
        const auto index = _storage->nodes.size();
        _storage->nodes.push_back(nd);
        for (const auto c : children)
        {
            _storage->nodes[c].data[0].h1++;
        }
        set_value(index, 0);
        for (const auto& fn : _events->on_add)
        {
            (*fn)(index);
        }
        return index;
    }
    signal create_node(const std::vector<signal>& children, const kitty::dynamic_truth_table& function)
    {
        if (children.empty())
        {
            return get_constant(!kitty::is_const0(function));
        }
        return _create_node(children, _storage->data.cache.insert(function));
    }
    signal clone_node(const klut_network& other, const node& source, const std::vector<signal>& children)
    {
        return create_node(children, other._storage->data.cache[other._storage->nodes[source].data[1].h1]);
    }
    void substitute_node(const node& old_node, const signal& new_signal)
    {
        for (size_t i = 0; i < _storage->nodes.size(); ++i)
        {
            for (auto& c : _storage->nodes[i].children)
            {
                if (c == node_pointer<0>{old_node})
                {
                    c = new_signal;
                    _storage->nodes[new_signal].data[0].h1++;
                }
            }
        }
        for (auto& o : _storage->outputs)
        {
            if (o == node_pointer<0>{old_node})
            {
                o = new_signal;
                _storage->nodes[new_signal].data[0].h1++;
            }
        }
        _storage->nodes[old_node].data[0].h1 = 0;
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2); }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1; }
    uint32_t incr_fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1++; }
    uint32_t decr_fanout_size(const node& n) const { return --_storage->nodes[n].data[0].h1; }
    bool     is_function(const node& n) const { return n > 1 && !is_ci(n); }
    bool     is_dead(const node&) const { return false; }
    kitty::dynamic_truth_table node_function(const node& n) const { return _storage->data.cache[_storage->nodes[n].data[1].h1]; }
    node                       get_node(const signal& f) const { return f; }
    signal                     make_signal(const node& n) const { return n; }
    bool                       is_complemented(const signal&) const { return false; }
    uint32_t                   node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node                       index_to_node(uint32_t i) const { return i; }
    node                       ci_at(uint32_t i) const { return _storage->inputs[i]; }
    signal                     co_at(uint32_t i) const { return _storage->outputs[i].index; }
    node                       pi_at(uint32_t i) const { return _storage->inputs[i]; }
    signal                     po_at(uint32_t i) const { return _storage->outputs[i].index; }
    uint32_t                   ci_index(const node& n) const
    {
        return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin());
    }
    uint32_t pi_index(const node& n) const { return ci_index(n); }
    uint32_t po_index(const signal& s) const
    {
        return static_cast<uint32_t>(std::find(_storage->outputs.begin(), _storage->outputs.end(), node_pointer<0>{s}) - _storage->outputs.begin());
    }
    uint32_t co_index(const signal& s) const { return po_index(s); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        const auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <typename Fn>
    void foreach_ci(Fn&& fn) const
    {
        detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn);
    }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const
    {
        foreach_ci(fn);
    }
    template <typename Fn>
    void foreach_co(Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, uint64_t>(_storage->outputs.begin(), _storage->outputs.end(), [](auto o) { return o.index; }, fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        foreach_co(fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        const auto r = range<uint64_t>(2u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn>
    void foreach_fanin(const node& n, Fn&& fn) const
    {
        if (n <= 1 || is_ci(n))
        {
            return;
        }
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, uint64_t>(_storage->nodes[n].children.begin(), _storage->nodes[n].children.end(), [](auto f) { return f.index; }, fn);
    }
    template <typename Iterator>
    iterates_over_t<Iterator, bool> compute(const node& n, Iterator begin, Iterator end) const
    {
        uint32_t index{0};
        while (begin != end)
        {
            index <<= 1;
            index ^= *begin++ ? 1 : 0;
        }
        return kitty::get_bit(_storage->data.cache[_storage->nodes[n].data[1].h1], index);
    }
    template <typename Iterator>
    iterates_over_truth_table_t<Iterator> compute(const node& n, Iterator begin, Iterator end) const
    {
        using TT = typename std::iterator_traits<Iterator>::value_type;
        const std::vector<TT> in(begin, end);
        const auto            f = node_function(n);
        TT                    r = in.at(0).construct();
        for (uint64_t i = 0; i < r.num_bits(); ++i)
        {
            uint64_t p = 0;
            for (size_t k = 0; k < in.size(); ++k)
            {
                p |= static_cast<uint64_t>(kitty::get_bit(in[k], i)) << k;
            }
            if (kitty::get_bit(f, p))
            {
                kitty::set_bit(r, i);
            }
        }
        return r;
    }
    void clear_values() const
    {
        for (auto& n : _storage->nodes)
        {
            n.data[0].h2 = 0;
        }
    }
    uint32_t value(const node& n) const { return _storage->nodes[n].data[0].h2; }
    void     set_value(const node& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    uint32_t incr_value(const node& n) const { return _storage->nodes[n].data[0].h2++; }
    uint32_t decr_value(const node& n) const { return --_storage->nodes[n].data[0].h2; }
    void     clear_visited() const
    {
        for (auto& n : _storage->nodes)
        {
            n.data[1].h2 = 0;
        }
    }
    uint32_t visited(const node& n) const { return _storage->nodes[n].data[1].h2; }
    void     set_visited(const node& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->data.trav_id; }
    void     incr_trav_id() const { ++_storage->data.trav_id; }
    auto&    events() const { return *_events; }

  public:
    std::shared_ptr<klut_storage>              _storage;
    std::shared_ptr<network_events<base_type>> _events;
};
}  // namespace mockturtle
