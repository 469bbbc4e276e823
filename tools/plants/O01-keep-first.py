id="O01-lost-best-race"; prop="O01"
needs="two annealing instances finishing at about the same time: the worse one passes the comparison before the better one is stored and is stored after it"
breaks="the multi-start result is no longer the best over all starts (check outside the lock, store inside)"
H="include/fiction/algorithms/optimization/simulated_annealing.hpp"
edits=[(H,"""    std::vector<std::pair<state_t, cost_t>> results(instances);
    std::vector<std::thread>                threads{};""","""    std::optional<std::pair<state_t, cost_t>> best{};
    std::atomic<cost_t>                       best_cost{std::numeric_limits<cost_t>::max()};
    std::mutex                                mutex{};
    std::vector<std::thread>                  threads{};"""),
(H,"""    // Function to perform simulated annealing and store the result in the results vector
    const auto perform_simulated_annealing =
        [&results, &init_temp, &final_temp, &cycles, &rand_state, &cost, &schedule, &next](const std::size_t index)
    { results[index] = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next); };
""","""    // Function to perform simulated annealing and keep the result if it improves on the best one so far
    const auto perform_simulated_annealing =
        [&best, &best_cost, &mutex, &init_temp, &final_temp, &cycles, &rand_state, &cost, &schedule, &next]()
    {
        auto result = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next);

        // do not contend for the lock if there is nothing to store
        if (result.second < best_cost.load())
        {
            const std::scoped_lock lock{mutex};
            best_cost.store(result.second);
            best.emplace(std::move(result));
        }
    };
"""),
(H,"threads.emplace_back(perform_simulated_annealing, i);","threads.emplace_back(perform_simulated_annealing);"),
(H,"""    // Find the minimum result
    // no execution policy: results holds one entry per annealing instance, where the dispatch costs an order of
    // magnitude more than the scan itself
    return *std::min_element(results.cbegin(), results.cend(),
                             [](const auto& lhs, const auto& rhs) { return lhs.second < rhs.second; });
""","""    return best.value_or(std::pair<state_t, cost_t>{});
"""),
(H,"#include <algorithm>\n","#include <algorithm>\n#include <atomic>\n#include <limits>\n#include <mutex>\n#include <optional>\n"),
]
flags="-O1 -pthread"
demo=r'''
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <chrono>
#include <cstdio>
#include <thread>
#include <atomic>
// a state whose move construction takes a while when it is the good one: the store of the good result is slow to start
std::atomic<int> started{0};
struct st { double v; st(double x = 0) : v{x} {} };
int main()
{
    for (int round = 0; round < 4000; ++round)
    {
        started = 0;
        std::atomic<int> n{0};
        auto rnd  = [&] { return st{static_cast<double>(n++)}; };
        auto cost = [](const st& s) { return s.v; };
        auto temp = [&](double) { ++started; while (started < 8) {} return 0.0; };  // line all instances up at their end
        auto nxt  = [](const st& s) { return s; };
        auto r = fiction::multi_simulated_annealing(1.0, 0.0, 1, 8, rnd, cost, temp, nxt);
        if (r.second != 0.0 || r.first.v != 0.0) { std::printf("round %d: best is %g\n", round, r.second); return 1; }
    }
    return 0;
}
'''
