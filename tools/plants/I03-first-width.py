id="I03-first-width"; prop="I03"
needs="a file whose truth tables have different numbers of variables"
breaks="the number of variables is determined once, from the first truth table, and used for all of them"
H="include/fiction/io/tt_reader.hpp"
edits=[(H,"        auto num_vars = static_cast<uint32_t>(std::log2(table.size() << 2ul));","        if (pos == 0ul)\n        {\n            num_vars = static_cast<uint32_t>(std::log2(table.size() << 2ul));\n        }"),
 (H,"    /**\n     * Current position in the vector.","    /**\n     * Number of variables of the truth tables.\n     */\n    uint32_t num_vars = 0u;\n    /**\n     * Current position in the vector.")]
shim=True
demo=r'''
#include <fiction/io/tt_reader.hpp>
#include <cstdio>
#include <sstream>
int main()
{
    std::istringstream s{"0x8 (ab)\n0xe8 <abc>\n0x6 [ab]\n"};
    fiction::tt_reader<> r{s};
    const unsigned want[]{2, 3, 2};
    for (const auto w : want)
    {
        const auto t = r.next();
        if (!t || t->num_vars() != w) { std::printf("wrong table\n"); return 1; }
    }
    return r.next() ? 1 : 0;
}
'''
