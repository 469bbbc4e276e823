// Stand-in for mockturtle/networks/storage.hpp (mockturtle is not installed here): same data layout as seen by fiction.
#pragma once
#include <array>
#include <cstdint>
#include <unordered_map>
#include <vector>

namespace mockturtle
{
template <int PointerFieldSize = 0>
struct node_pointer
{
    node_pointer() = default;
    node_pointer(uint64_t i, uint64_t w) : index(i), weight(w) {}
    union
    {
        struct
        {
            uint64_t weight : PointerFieldSize;
            uint64_t index : 64 - PointerFieldSize;
        };
        uint64_t data{0};
    };
    node_pointer(uint64_t d) : data(d) {}
    bool operator==(const node_pointer& o) const { return data == o.data; }
};
template <>
struct node_pointer<0>
{
    node_pointer() = default;
    node_pointer(uint64_t d) : index(d) {}
    uint64_t index{0};
    bool     operator==(const node_pointer& o) const { return index == o.index; }
};
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint64_t h1 : 32;
        uint64_t h2 : 32;
    };
};
template <int Fanin, int Size = 0, int PointerFieldSize = 0>
struct regular_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::array<pointer_type, Fanin> children{};
    std::array<cauint64_t, Size>    data{};
    bool                            operator==(const regular_node& o) const { return children == o.children; }
};
template <int Size = 0, int PointerFieldSize = 0>
struct mixed_fanin_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::vector<pointer_type>    children{};
    std::array<cauint64_t, Size> data{};
    bool                         operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
struct storage_no_data
{};
template <typename Node, typename T = storage_no_data, typename NodeHasher = void>
struct storage
{
    using node_type = Node;
    storage()
    {
        // the first node is reserved for a constant
        nodes.emplace_back();
    }
    std::vector<node_type>                        nodes{};
    std::vector<uint64_t>                         inputs{};
    std::vector<typename node_type::pointer_type> outputs{};
    std::vector<uint64_t>                         shim_order{};
    T                                             data{};
};
}  // namespace mockturtle
