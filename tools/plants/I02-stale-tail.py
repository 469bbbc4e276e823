id="I02-stale-tail"; prop="I02"
needs="writing over a file that is longer than the new content"
breaks="an existing file is opened for update and not cut: the rest of the old content stays behind the new layout"
H="include/fiction/io/write_sqd_layout.hpp"
edits=[(H,"    std::ofstream os{std::string{filename}, std::ofstream::out};","    // keep the attributes of an existing file\n    std::ofstream os{std::string{filename}, std::ofstream::out | std::ofstream::in};\n\n    if (!os.is_open())\n    {\n        os.clear();\n        os.open(std::string{filename}, std::ofstream::out);\n    }")]
shim=True
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
demo=r'''
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/types.hpp>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <iterator>
#include <string>
int main()
{
    using lyt = fiction::sidb_100_cell_clk_lyt_siqad;
    lyt big{}, small{};
    for (int x = 0; x < 20; ++x) big.assign_cell_type({x, 0, 0}, fiction::sidb_technology::cell_type::NORMAL);
    small.assign_cell_type({1, 1, 1}, fiction::sidb_technology::cell_type::NORMAL);
    fiction::write_sqd_layout(big, std::string_view{"a.sqd"});
    fiction::write_sqd_layout(small, std::string_view{"a.sqd"});
    fiction::write_sqd_layout(small, std::string_view{"b.sqd"});
    const auto size = [](const char* n) { std::ifstream f(n); return std::string((std::istreambuf_iterator<char>(f)), {}).size(); };
    std::printf("%zu %zu\n", size("a.sqd"), size("b.sqd"));
    return size("a.sqd") == size("b.sqd") ? 0 : 1;
}
'''
