// Stand-in for parallel-hashmap's btree containers.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
namespace phmap
{
template <typename T, typename C = std::less<T>, typename A = std::allocator<T>>
class btree_set : public std::set<T, C, A>
{
  public:
    using std::set<T, C, A>::set;
    btree_set() = default;
};
template <typename T, typename C = std::less<T>, typename A = std::allocator<T>>
class btree_multiset : public std::multiset<T, C, A>
{
  public:
    using std::multiset<T, C, A>::multiset;
    btree_multiset() = default;
};
template <typename K, typename V, typename C = std::less<K>, typename A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, C, A>
{
  public:
    using std::map<K, V, C, A>::map;
    btree_map() = default;
};
}  // namespace phmap
