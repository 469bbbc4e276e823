id="I01-flush-before-newline"; prop="I01"
needs="a crash (or a look at the device) after a row was written to a buffering stream"
breaks="the row's newline stays in the stream's buffer: after a crash the last row is torn although write_line returned"
H="include/fiction/io/csv_writer.hpp"
edits=[(H,"            stream << std::forward<T>(arg) << std::endl;","            stream << std::forward<T>(arg);\n            stream.flush();\n            stream.put('\\n');")]
demo=r'''
#include <fiction/io/csv_writer.hpp>
#include <fstream>
#include <iterator>
#include <string>
#include <cstdio>
int main()
{
    std::ofstream f("rows.csv");
    fiction::csv_writer w(f);
    w.write_line("a", 1);
    w.write_line("b", 2);
    std::ifstream in("rows.csv");
    std::string s((std::istreambuf_iterator<char>(in)), {});
    std::printf("%s", s.c_str());
    return s == "a,1\nb,2\n" ? 0 : 1;
}
'''
repeat=1
