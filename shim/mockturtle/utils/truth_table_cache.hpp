// Stand-in for mockturtle/utils/truth_table_cache.hpp: literals 2 * index + complement; a function and its complement share
// an index, the normal one (f(0) = 0) is stored
#pragma once
#include <cstdint>
#include <unordered_map>
#include <vector>

#include <kitty/dynamic_truth_table.hpp>
#include <kitty/hash.hpp>
#include <kitty/operations.hpp>
#include <kitty/operators.hpp>

namespace mockturtle
{
template <typename TT>
class truth_table_cache
{
  public:
    truth_table_cache(uint32_t capacity = 1000u) { _data.reserve(capacity); }
    uint32_t insert(TT tt)
    {
        uint32_t is_compl = 0;
        if (kitty::get_bit(tt, 0))
        {
            is_compl = 1;
            tt       = ~tt;
        }
        const auto it = _indexes.find(tt);
        if (it != _indexes.end())
        {
            return 2 * it->second + is_compl;
        }
        const auto v = static_cast<uint32_t>(_data.size());
        _data.push_back(tt);
        _indexes[tt] = v;
        return 2 * v + is_compl;
    }
    TT operator[](uint32_t index) const
    {
        const auto& e = _data[index >> 1];
        return (index & 1) ? ~e : e;
    }
    auto size() const { return _data.size(); }

  private:
    std::unordered_map<TT, uint32_t> _indexes{};
    std::vector<TT>                  _data{};
};
}  // namespace mockturtle
