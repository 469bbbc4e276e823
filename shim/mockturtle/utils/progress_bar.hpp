// Stand-in for mockturtle/utils/progress_bar.hpp: shows nothing
#pragma once
#include <cstdint>
#include <string>
namespace mockturtle
{
class progress_bar
{
  public:
    template <typename... A>
    explicit progress_bar(A&&...)
    {}
    template <typename... A>
    void operator()(A&&...)
    {}
};
}  // namespace mockturtle
