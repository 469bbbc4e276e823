// Stand-in for mockturtle's foreach helpers (mockturtle is not installed here): same contract, callable with (x) or
// (x, index), returning void or a bool that continues the iteration.
#pragma once
#include <cstdint>
#include <iterator>
#include <cstddef>
#include <type_traits>
#include <utility>

namespace mockturtle
{
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_with_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType, uint32_t>;
template <class Fn, class ElementType, class ReturnType>
inline constexpr bool is_callable_without_index_v = std::is_invocable_r_v<ReturnType, Fn, ElementType>;

class range_iterator
{
  public:
    using iterator_category = std::forward_iterator_tag;
    using value_type        = uint64_t;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const uint64_t*;
    using reference         = uint64_t;
};

namespace detail
{
template <class Fn, class El>
bool shim_call(Fn& fn, El&& el, uint32_t i)
{
    if constexpr (std::is_invocable_v<Fn&, El, uint32_t>)
    {
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, El, uint32_t>, bool>)
        {
            return fn(std::forward<El>(el), i);
        }
        else
        {
            fn(std::forward<El>(el), i);
            return true;
        }
    }
    else
    {
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, El>, bool>)
        {
            return fn(std::forward<El>(el));
        }
        else
        {
            fn(std::forward<El>(el));
            return true;
        }
    }
}

template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Fn>
Iterator foreach_element(Iterator begin, Iterator end, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t i = counter_offset;
    for (; begin != end; ++begin)
    {
        if (!shim_call(fn, *begin, i++))
        {
            return begin;
        }
    }
    return begin;
}
template <class Iterator, class ElementType = typename std::iterator_traits<Iterator>::value_type, class Pred, class Fn>
Iterator foreach_element_if(Iterator begin, Iterator end, Pred&& pred, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t i = counter_offset;
    for (; begin != end; ++begin)
    {
        if (!pred(*begin))
        {
            continue;
        }
        if (!shim_call(fn, *begin, i++))
        {
            return begin;
        }
    }
    return begin;
}
template <class Iterator, class ElementType, class Transform, class Fn>
Iterator foreach_element_transform(Iterator begin, Iterator end, Transform&& transform, Fn&& fn,
                                   uint32_t counter_offset = 0)
{
    uint32_t i = counter_offset;
    for (; begin != end; ++begin)
    {
        if (!shim_call(fn, static_cast<ElementType>(transform(*begin)), i++))
        {
            return begin;
        }
    }
    return begin;
}
}  // namespace detail
using detail::foreach_element;
using detail::foreach_element_if;
using detail::foreach_element_transform;

template <class T>
struct shim_range
{
    struct iterator
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using pointer           = const T*;
        using reference         = T;
        T         v{};
        T         operator*() const { return v; }
        T         operator[](difference_type d) const { return static_cast<T>(v + d); }
        iterator& operator++()
        {
            ++v;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++v;
            return c;
        }
        iterator& operator--()
        {
            --v;
            return *this;
        }
        iterator& operator+=(difference_type d)
        {
            v = static_cast<T>(v + d);
            return *this;
        }
        friend iterator        operator+(iterator a, difference_type d) { return a += d; }
        friend difference_type operator-(const iterator& a, const iterator& b)
        {
            return static_cast<difference_type>(a.v) - static_cast<difference_type>(b.v);
        }
        bool operator==(const iterator& o) const { return v == o.v; }
        bool operator!=(const iterator& o) const { return v != o.v; }
        bool operator<(const iterator& o) const { return v < o.v; }
    };
    T        b{}, e{};
    iterator begin() const { return {b}; }
    iterator end() const { return {e}; }
};
template <class T>
shim_range<T> range(T b, T e)
{
    return {b, e};
}
template <class T>
shim_range<T> range(T e)
{
    return {T{0}, e};
}
}  // namespace mockturtle
