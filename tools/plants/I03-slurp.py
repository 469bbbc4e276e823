id="I03-slurp"; prop="I03"
needs="a read error in the middle of the file"
breaks="the surface is copied through a string stream, which swallows the error: the rows that could not be read are missing without notice"
H="include/fiction/io/read_sidb_surface_defects.hpp"
edits=[(H,"            defect_matrix{std::istreambuf_iterator<char>(s), {}}  // read the stream into a string to perform regex\n","            defect_matrix{slurp(s)}  // read the stream into a string to perform regex\n"),
 (H,"  private:\n    sidb_defect_surface<Lyt> lyt;","  private:\n    [[nodiscard]] static std::string slurp(std::istream& s)\n    {\n        std::ostringstream content{};\n        content << s.rdbuf();\n        return content.str();\n    }\n\n    sidb_defect_surface<Lyt> lyt;"),
 (H,"#include <regex>\n","#include <regex>\n#include <sstream>\n")]
shim=True
flags="-O1 -pthread -DFICTION_ALGLIB_ENABLED=0"
demo=r'''
#include <fiction/io/read_sidb_surface_defects.hpp>
#include <fiction/types.hpp>
#include <cerrno>
#include <cstdio>
#include <fstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
static long left = -1;  // bytes until the disk fails
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (left >= 0)
    {
        if (left == 0) { errno = EIO; return -1; }
        n = n < static_cast<size_t>(left) ? n : static_cast<size_t>(left);
    }
    const auto r = syscall(SYS_read, fd, b, n);
    if (left > 0 && r > 0) left -= r;
    return r;
}
int main()
{
    std::ofstream("s.txt") << "[[0 1 0]\n [0 0 2]\n [3 0 0]\n [0 1 0]]\n";
    for (long k = 0; k <= 40; ++k)
    {
        left = k;
        try
        {
            const auto s = fiction::read_sidb_surface_defects<fiction::sidb_100_cell_clk_lyt>(std::string_view{"s.txt"}, "s");
            left = -1;
            if (s.y() != 3) { std::printf("%ld bytes read: %d rows and no error\n", k, (int)s.y() + 1); return 1; }
        }
        catch (const std::exception&) {}
    }
    return 0;
}
'''
