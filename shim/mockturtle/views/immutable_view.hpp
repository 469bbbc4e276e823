// Stand-in for mockturtle/views/immutable_view.hpp
#pragma once
#include <cstdint>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <mockturtle/traits.hpp>
namespace mockturtle
{
template <typename Ntk>
class immutable_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    immutable_view(const Ntk& ntk) : Ntk(ntk) {}
    signal create_pi(const std::string& = {}) = delete;
    void   create_po(const signal&, const std::string& = {}) = delete;
    signal create_buf(const signal&) = delete;
    signal create_not(const signal&) = delete;
    signal create_and(const signal&, const signal&) = delete;
    signal create_nand(const signal&, const signal&) = delete;
    signal create_or(const signal&, const signal&) = delete;
    signal create_nor(const signal&, const signal&) = delete;
    signal create_lt(const signal&, const signal&) = delete;
    signal create_le(const signal&, const signal&) = delete;
    signal create_gt(const signal&, const signal&) = delete;
    signal create_ge(const signal&, const signal&) = delete;
    signal create_xor(const signal&, const signal&) = delete;
    signal create_xnor(const signal&, const signal&) = delete;
    signal create_maj(const signal&, const signal&, const signal&) = delete;
    signal create_ite(const signal&, const signal&, const signal&) = delete;
    signal create_node(const std::vector<signal>&, const kitty::dynamic_truth_table&) = delete;
    signal clone_node(const immutable_view&, const node&, const std::vector<signal>&) = delete;
    void   substitute_node(const node&, const signal&) = delete;
};
template <class T>
immutable_view(const T&) -> immutable_view<T>;
}  // namespace mockturtle
