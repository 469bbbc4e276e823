// Stand-in for kitty (not installed here): dynamic truth tables and the handful of operations fiction uses.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace kitty
{
struct dynamic_truth_table
{
    std::vector<uint64_t> _bits{};
    uint32_t              _num_vars{0};
    dynamic_truth_table() = default;
    explicit dynamic_truth_table(uint32_t n) : _bits(n <= 6 ? 1u : (1u << (n - 6)), 0), _num_vars{n} {}
    dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    uint32_t            num_vars() const noexcept { return _num_vars; }
    uint64_t            num_blocks() const noexcept { return _bits.size(); }
    uint64_t            num_bits() const noexcept { return uint64_t{1} << _num_vars; }
    auto                begin() noexcept { return _bits.begin(); }
    auto                end() noexcept { return _bits.end(); }
    auto                begin() const noexcept { return _bits.begin(); }
    auto                end() const noexcept { return _bits.end(); }
    auto                cbegin() const noexcept { return _bits.cbegin(); }
    auto                cend() const noexcept { return _bits.cend(); }
    auto                rbegin() const noexcept { return _bits.rbegin(); }
    auto                rend() const noexcept { return _bits.rend(); }
    void                mask_bits() noexcept
    {
        if (_num_vars < 6 && !_bits.empty())
        {
            _bits[0] &= (uint64_t{1} << (uint64_t{1} << _num_vars)) - 1;
        }
    }
    bool operator==(const dynamic_truth_table& o) const { return _num_vars == o._num_vars && _bits == o._bits; }
    bool operator!=(const dynamic_truth_table& o) const { return !(*this == o); }
    bool operator<(const dynamic_truth_table& o) const
    {
        return std::lexicographical_compare(_bits.rbegin(), _bits.rend(), o._bits.rbegin(), o._bits.rend());
    }
};

template <typename T>
struct is_truth_table : std::false_type
{};
template <>
struct is_truth_table<dynamic_truth_table> : std::true_type
{};
template <>
struct is_truth_table<const dynamic_truth_table> : std::true_type
{};
template <typename T>
inline constexpr bool is_truth_table_v = is_truth_table<T>::value;
template <typename T>
struct is_complete_truth_table : is_truth_table<T>
{};

template <typename TT>
bool get_bit(const TT& tt, uint64_t i)
{
    return (tt._bits[i >> 6] >> (i & 63)) & 1;
}
template <typename TT>
void set_bit(TT& tt, uint64_t i)
{
    tt._bits[i >> 6] |= uint64_t{1} << (i & 63);
}
template <typename TT>
void clear_bit(TT& tt, uint64_t i)
{
    tt._bits[i >> 6] &= ~(uint64_t{1} << (i & 63));
}
template <typename TT>
uint64_t count_ones(const TT& tt)
{
    uint64_t n = 0;
    for (const auto w : tt._bits)
    {
        n += static_cast<uint64_t>(__builtin_popcountll(w));
    }
    return n;
}
template <typename TT, typename F>
TT binary_operation(const TT& a, const TT& b, F&& f)
{
    TT r = a.construct();
    for (size_t i = 0; i < r._bits.size(); ++i)
    {
        r._bits[i] = f(a._bits[i], b._bits[i]);
    }
    r.mask_bits();
    return r;
}
template <typename TT>
TT unary_not(const TT& a)
{
    TT r = a;
    for (auto& w : r._bits)
    {
        w = ~w;
    }
    r.mask_bits();
    return r;
}
inline dynamic_truth_table operator~(const dynamic_truth_table& a) { return unary_not(a); }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](uint64_t x, uint64_t y) { return x & y; });
}
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](uint64_t x, uint64_t y) { return x | y; });
}
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return binary_operation(a, b, [](uint64_t x, uint64_t y) { return x ^ y; });
}
template <typename TT>
bool is_const0(const TT& t)
{
    return std::all_of(t._bits.begin(), t._bits.end(), [](uint64_t w) { return w == 0; });
}
template <typename TT>
bool equal(const TT& a, const TT& b)
{
    return a == b;
}
template <typename TT, typename It>
void create_from_words(TT& tt, It b, It e)
{
    auto it = tt._bits.begin();
    while (b != e && it != tt._bits.end())
    {
        *it++ = static_cast<uint64_t>(*b++);
    }
    std::fill(it, tt._bits.end(), 0);
    tt.mask_bits();
}
template <typename TT>
void create_from_binary_string(TT& tt, const std::string& s)
{
    assert(s.size() == tt.num_bits());
    std::fill(tt._bits.begin(), tt._bits.end(), 0);
    uint64_t j = tt.num_bits();
    for (const char c : s)
    {
        --j;
        assert(c == '0' || c == '1');
        if (c == '1')
        {
            set_bit(tt, j);
        }
    }
}
template <typename TT>
void create_from_hex_string(TT& tt, const std::string& h)
{
    // like kitty: the least significant digits are at the end of the string
    std::fill(tt._bits.begin(), tt._bits.end(), 0);
    if (tt.num_vars() < 2)
    {
        assert(h.size() == 1);
    }
    else
    {
        assert((h.size() << 2) == tt.num_bits());
    }
    uint64_t pos = 0;
    for (auto it = h.rbegin(); it != h.rend() && pos < std::max<uint64_t>(tt.num_bits(), 1); ++it, pos += 4)
    {
        const char c = *it;
        int        v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (v < 0)
        {
            throw std::invalid_argument("not a hexadecimal digit");
        }
        tt._bits[pos >> 6] |= static_cast<uint64_t>(v) << (pos & 63);
    }
    tt.mask_bits();
}
template <typename TT>
void create_nth_var(TT& tt, uint32_t v, bool complement = false)
{
    for (uint64_t i = 0; i < tt.num_bits(); ++i)
    {
        if (((i >> v) & 1) != static_cast<uint64_t>(complement))
        {
            set_bit(tt, i);
        }
        else
        {
            clear_bit(tt, i);
        }
    }
}
template <typename TT>
std::string to_binary(const TT& tt)
{
    std::string s;
    for (uint64_t i = tt.num_bits(); i-- > 0;)
    {
        s += get_bit(tt, i) ? '1' : '0';
    }
    return s;
}
template <typename TT>
std::string to_hex(const TT& tt)
{
    const uint64_t n = tt.num_vars() < 2 ? 1 : tt.num_bits() >> 2;
    std::string    s;
    for (uint64_t i = n; i-- > 0;)
    {
        s += "0123456789abcdef"[(tt._bits[(i * 4) >> 6] >> ((i * 4) & 63)) & 15];
    }
    return s;
}
template <typename TT>
void print_binary(const TT& tt, std::ostream& os = std::cout)
{
    os << to_binary(tt);
}
template <typename TT>
void print_hex(const TT& tt, std::ostream& os = std::cout)
{
    os << to_hex(tt);
}
template <typename TT>
struct hash
{
    std::size_t operator()(const TT& tt) const
    {
        std::size_t h = tt.num_vars();
        for (const auto w : tt._bits)
        {
            h = h * 1099511628211ULL ^ std::hash<uint64_t>{}(w);
        }
        return h;
    }
};
}  // namespace kitty
namespace std
{
template <>
struct hash<kitty::dynamic_truth_table>
{
    std::size_t operator()(const kitty::dynamic_truth_table& tt) const { return kitty::hash<kitty::dynamic_truth_table>{}(tt); }
};
}  // namespace std
