id="S05-open-surface"; prop="S05"
needs="three sweep dimensions and an operational region that reaches the edge of the swept range"
breaks="points at the edge of the parameter range no longer count as boundary, so the boundary surface stays open there and contour points are missing"
H="include/fiction/algorithms/simulation/sidb/operational_domain.hpp"
edits=[(H,"            if (neighborhood.size() < static_cast<std::size_t>(std::pow(3, num_dimensions)) - 1)\n            {\n                return std::pair{std::move(neighborhood), true};\n            }\n\n","")]
exec(open("/verif/tools/plants/S05-lock-free-exit.py").read().split("PRE=")[1].join(["PRE=",""]).split("demo=PRE")[0])
shim=True; harness=[]
flags="-O1 -g -pthread -DFICTION_ALGLIB_ENABLED=1"
run='timeout 120 "$W/demo" || exit 1'
demo=PRE+r'''
bool demo::op(const fiction::sidb_simulation_parameters& p) { return p.epsilon_r < 5.05; }
int main()
{
    for (int k = 0; k < 5; ++k)
    {
        fiction::operational_domain_params ps{};
        ps.sweep_dimensions = {{fiction::sweep_parameter::EPSILON_R, 4.6, 5.6, 0.1}, {fiction::sweep_parameter::LAMBDA_TF, 4.6, 5.4, 0.1}, {fiction::sweep_parameter::MU_MINUS, -0.36, -0.28, 0.01}};
        fiction::operational_domain_stats st{};
        auto d = fiction::operational_domain_contour_tracing(gate(), std::vector<demo::tt>(1), 60, ps, &st);
        // the region is a box of 5 x 9 x 9 points; each of its surface points must have been evaluated
        for (int i = 0; i < 5; ++i)
            for (int j = 0; j < 9; ++j)
                for (int m = 0; m < 9; ++m)
                    if (i == 0 || i == 4 || j == 0 || j == 8 || m == 0 || m == 8)
                        if (!d.contains(fiction::parameter_point{{4.6 + i * 0.1, 4.6 + j * 0.1, -0.36 + m * 0.01}})) { std::printf("missing %d %d %d\n", i, j, m); return 1; }
    }
    return 0;
}
'''
