// Stand-in for mockturtle/utils/algorithm.hpp
#pragma once
#include <cstddef>
#include <deque>
#include <iterator>
#include <type_traits>

namespace mockturtle
{
template <class Iterator, class T, class BinaryOperation>
T tree_reduce(Iterator first, Iterator last, const T& init, BinaryOperation&& op)
{
    const auto n = std::distance(first, last);
    if (n == 0)
    {
        return init;
    }
    if (n == 1)
    {
        return *first;
    }
    if (n == 2)
    {
        return op(*first, *(first + 1));
    }
    const auto m = n / 2;
    return op(tree_reduce(first, first + m, init, op), tree_reduce(first + m, last, init, op));
}
}  // namespace mockturtle
