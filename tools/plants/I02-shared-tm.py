id="I02-shared-tm"; prop="I02"
needs="two callers writing dated files at the same time"
breaks="the date is taken from the buffer that std::localtime shares between all threads: data race, dates of other callers"
H="include/fiction/utils/stl_utils.hpp"
edits=[(H,"    localtime_r(&time, &tm_snapshot);","    if (const auto* const local = std::localtime(&time); local != nullptr)\n    {\n        tm_snapshot = *local;\n    }")]
shim=True
demo=r'''
#include <fiction/utils/stl_utils.hpp>
#include <chrono>
#include <cstdio>
#include <ctime>
#include <thread>
// the C library's localtime, with a caller that is held up before it gets to look at the result
static std::tm shared;
extern "C" std::tm* localtime(const time_t* t) noexcept
{
    localtime_r(t, &shared);
    std::this_thread::sleep_for(std::chrono::milliseconds(*t == 0 ? 300 : 0));
    return &shared;
}
int main()
{
    std::tm a{}, b{};
    std::thread x{[&] { a = fiction::safe_localtime(0); }};
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    std::thread y{[&] { b = fiction::safe_localtime(1000000000); }};
    x.join();
    y.join();
    std::printf("%d %d\n", a.tm_year + 1900, b.tm_year + 1900);
    return a.tm_year + 1900 <= 1970 && b.tm_year + 1900 == 2001 ? 0 : 1;
}
'''
