N="node<Ntk>"; S="signal<Ntk>"
d=lambda t: f"std::declval<{t}>()"
V="std::vector<signal<Ntk>>"
traits={}
def t(name,*args): traits[name]=args
for n in "size num_pis num_pos num_cis num_cos num_gates num_registers depth width clone incr_trav_id trav_id clear_values clear_visited get_network_name".split(): t(n)
t("update_levels")
for n in "is_constant is_ci is_pi is_po is_co is_ro is_and is_or is_xor is_maj is_ite is_xor3 is_not is_buf is_inv is_function is_nary_and is_nary_or is_nary_xor is_dead fanin_size fanout_size incr_fanout_size decr_fanout_size constant_value level node_to_index node_function visited value make_signal has_name_n ci_index pi_index rank_position is_on_critical_path incr_value decr_value depth_n".split(): t(n,N)
for n in "get_node is_complemented create_not create_buf create_po create_ro create_ri has_name get_name po_index".split(): t(n,S)
t("get_constant","bool")
for n in "create_and create_nand create_or create_nor create_lt create_le create_gt create_ge create_xor create_xnor".split(): t(n,S,S)
for n in "create_maj create_ite create_xor3".split(): t(n,S,S,S)
for n in "create_nary_and create_nary_or create_nary_xor".split(): t(n,V)
t("create_pi"); 
t("create_node",V,"kitty::dynamic_truth_table")
t("clone_node","Ntk",N,V)
for n in "foreach_node foreach_gate foreach_pi foreach_ci foreach_ro".split(): t(n,"void(node<Ntk>,uint32_t)")
for n in "foreach_po foreach_co foreach_ri".split(): t(n,"void(signal<Ntk>,uint32_t)")
t("foreach_fanin",N,"void(signal<Ntk>,uint32_t)")
t("foreach_fanout",N,"void(node<Ntk>,uint32_t)")
t("foreach_node_in_rank","uint32_t","void(node<Ntk>,uint32_t)")
t("foreach_gate_in_rank","uint32_t","void(node<Ntk>,uint32_t)")
t("at_rank_position","uint32_t","uint32_t")
t("swap",N,N)
t("set_visited",N,"uint32_t"); t("set_value",N,"uint32_t"); t("set_level",N,"uint32_t")
t("set_network_name","std::string"); t("set_name",S,"std::string")
t("has_output_name","uint32_t"); t("get_output_name","uint32_t"); t("set_output_name","uint32_t","std::string")
t("pi_at","uint32_t"); t("po_at","uint32_t"); t("ci_at","uint32_t"); t("co_at","uint32_t"); t("index_to_node","uint32_t")
t("substitute_node",N,S); t("take_out_node",N); t("replace_in_node",N,N,S); t("replace_in_outputs",N,S)
t("fanout",N); t("compute",N,"std::vector<bool>::iterator","std::vector<bool>::iterator"); t("events"); t("get_fanin0",N)
t("EXODC_interface")
o=['''// Stand-in for mockturtle/traits.hpp. Generated by gen_traits.py
#pragma once
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/traits.hpp>
#include <cstdint>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace mockturtle
{
template <class Ntk>
using signal = typename Ntk::signal;
template <class Ntk>
using node = typename Ntk::node;
template <class Ntk>
using storage_t = typename Ntk::storage;

template <class Ntk, class = void>
struct is_network_type : std::false_type {};
template <class Ntk>
struct is_network_type<Ntk, std::enable_if_t<(Ntk::max_fanin_size >= 0 && Ntk::min_fanin_size >= 0),
    std::void_t<typename Ntk::base_type, signal<Ntk>, node<Ntk>, typename Ntk::storage,
                decltype(std::declval<Ntk>().size()),
                decltype(std::declval<Ntk>().get_node(std::declval<signal<Ntk>>()))>>> : std::true_type {};
template <class Ntk>
inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;
template <class Ntk, class = void>
struct is_topologically_sorted : std::false_type {};
template <class Ntk>
struct is_topologically_sorted<Ntk, std::enable_if_t<Ntk::is_topologically_sorted>> : std::true_type {};
template <class Ntk>
inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<Ntk>::value;
template <class Iterator, class T>
using iterates_over_t = std::enable_if_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype(*std::declval<Iterator>())>>, T> || std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>, T>;
template <class Iterator>
using iterates_over_truth_table_t = std::enable_if_t<kitty::is_truth_table<typename std::iterator_traits<Iterator>::value_type>::value, typename std::iterator_traits<Iterator>::value_type>;
''']
for n,a in traits.items():
    if n.endswith("_n"): continue
    args=",".join(d(x) for x in a)
    tn="has_"+n
    o.append(f"template <class Ntk, class = void> struct {tn} : std::false_type {{}};\ntemplate <class Ntk> struct {tn}<Ntk, std::void_t<decltype(std::declval<Ntk>().{n}({args}))>> : std::true_type {{}};\ntemplate <class Ntk> inline constexpr bool {tn}_v = {tn}<Ntk>::value;\n")
o.append("}\n")
open("traits.hpp","w").write("".join(o))
