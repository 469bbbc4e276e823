exec(open("/verif/tools/plants/P01-narrow-lock.py").read())
id="P01-paths-first"
needs="an inverter whose output and the signal before it are joined in one gate, placed where both paths could leave the same way"
breaks="the second path of a two-input gate is determined before the first one is obstructed: it is routed differently than checked, inverters that have to be straight are bent"
edits=[(H,"""        for (const auto& el : path_1)
        {
            layout.obstruct_coordinate(el);
        }

        const auto path_2 = check_path(layout, pre2_t, position, new_gate_location::NONE);
        assert(!path_2.empty());

        for (const auto& el : path_2)
""","""        const auto path_2 = check_path(layout, pre2_t, position, new_gate_location::NONE);
        assert(!path_2.empty());

        for (const auto& el : path_1)
        {
            layout.obstruct_coordinate(el);
        }

        for (const auto& el : path_2)
""")]
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"; run='timeout 200 "$W/demo"'
demo=PRE+r'''
// every pattern at the inputs has to give the network's outputs
static uint64_t eval(const lyt_t& l, uint32_t n, int d = 0)
{
    if (d > 1000) return 99;
    if (l.is_pi(n)) { uint64_t i = 0, r = 0; l.foreach_pi([&](auto p) { if (p == n) r = i; ++i; }); return std::array<uint64_t, 3>{0xAA, 0xCC, 0xF0}[r]; }
    std::vector<uint64_t> c;
    l.foreach_fanin(n, [&](const auto& f) { c.push_back(eval(l, l.get_node(f), d + 1)); });
    const auto f = l.node_function(n);
    if (c.size() != f.num_vars()) return 99;
    uint64_t v = 0;
    for (unsigned p = 0; p < 8; ++p) { unsigned k = 0; for (size_t j = 0; j < c.size(); ++j) k |= ((c[j] >> p) & 1) << j; v |= uint64_t(kitty::get_bit(f, k) ? 1 : 0) << p; }
    return v;
}
int main()
{
    for (int e = 1; e < 7; ++e) for (int k = 0; k < 8; ++k) for (int skip = 0; skip < 3; ++skip)
    {
        fiction::tec_nt n{};
        const auto a = n.create_pi("a"), b = n.create_pi("b"), c = k & 4 ? n.create_pi("c") : a;
        const auto x = n.create_not(b), y = k & 1 ? n.create_le(b, x) : n.create_xnor(b, x);
        if (k & 2) n.create_po(a, "g");
        n.create_po(y, "f");
        if (!(k & 2)) n.create_po(a, "g");
        if (k & 4) n.create_po(c, "h");
        params_t ps{};
        ps.mode = params_t::effort_mode::HIGH_EFFICIENCY;
        ps.num_vertex_expansions = e;
        ps.tiles_to_skip_between_pis = skip;
        ps.return_first = true;
        ps.straight_inverters = true;
        ps.timeout = 1000;
        const auto l = fiction::graph_oriented_layout_design<lyt_t>(n, ps);
        if (!l) continue;
        bool bad = false;
        l->foreach_node([&](const auto& q) { if (l->is_inv(q)) l->foreach_fanin(q, [&](const auto& f) { const auto t = l->get_tile(q); const auto u = (fiction::tile<lyt_t>)f;
            l->foreach_fanout(q, [&](const auto& o) { const auto v = l->get_tile(o); bad |= !((u.x == t.x && v.x == t.x) || (u.y == t.y && v.y == t.y)); }); }); });
        if (bad) { std::puts("bent inverter"); return 1; }
    }
    return 0;
}
'''
