// Stand-in for mockturtle/utils/stopwatch.hpp
#pragma once
#include <chrono>
#include <utility>
#include <fmt/format.h>
namespace mockturtle
{
template <class Clock = std::chrono::steady_clock>
class stopwatch
{
  public:
    using clock      = Clock;
    using duration   = typename Clock::duration;
    using time_point = typename Clock::time_point;
    explicit stopwatch(duration& d) : d_(d), beg(clock::now()) {}
    ~stopwatch() { d_ += (clock::now() - beg); }

  private:
    duration&  d_;
    time_point beg;
};
stopwatch(std::chrono::steady_clock::duration&) -> stopwatch<>;
template <class Fn, class Clock = std::chrono::steady_clock>
auto call_with_stopwatch(typename Clock::duration& t, Fn&& fn)
{
    const stopwatch<Clock> s(t);
    return fn();
}
template <class Duration>
inline double to_seconds(const Duration& d)
{
    return std::chrono::duration_cast<std::chrono::duration<double>>(d).count();
}
}  // namespace mockturtle
