exec(open("/verif/tools/plants/P02-no-way-back.py").read().split("demo=PRE")[0])
id="P02-kept-matrix"; prop="P02"
needs="two layouts whose wiring is reduced at the same time by different threads"
breaks="the matrix of offsets is kept between calls to save allocations: threads share it, wires are moved by the offsets of another layout"
H="include/fiction/algorithms/physical_design/wiring_reduction.hpp"
edits=[(H,"    const auto off_mat = calculate_offset_matrix<WiringReductionLyt>(wiring_reduction_layout, to_delete);","    // keep the storage of the matrix across calls\n    static offset_matrix off_mat{};\n    off_mat = calculate_offset_matrix<WiringReductionLyt>(wiring_reduction_layout, to_delete);")]
flags="-O1 -g -fsanitize=thread -pthread -DFICTION_ALGLIB_ENABLED=0"
run='''export TSAN_OPTIONS="exitcode=66 halt_on_error=1"
timeout 200 setarch -R "$W/demo" || exit 1'''
demo=PRE+r'''
int main()
{
    std::vector<std::thread> ts;
    for (int w = 0; w < 4; ++w)
    {
        ts.emplace_back([w] {
            for (int k = 0; k < 12; ++k)
            {
                const auto l = make(k + w);
                fiction::wiring_reduction(l);
                if (!sound(l)) { std::_Exit(1); }
            }
        });
    }
    for (auto& t : ts) t.join();
    return 0;
}
'''
