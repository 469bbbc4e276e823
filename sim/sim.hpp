// Deterministic simulator: interface used by the scenarios in /verif/harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>

namespace sim
{
// ---- workload generation: every value is a pure function of (seed, name, n-th use) and is recorded for replay -----
int64_t  choose(const char* name, int64_t lo, int64_t hi);  // uniform in [lo, hi]
bool     chance(const char* name, int percent);
double   real(const char* name, double lo, double hi);  // quantised to 2^-20 of the range
uint64_t bits(const char* name);
template <typename T>
T pick(const char* name, std::initializer_list<T> l)
{
    return *(l.begin() + choose(name, 0, static_cast<int64_t>(l.size()) - 1));
}

// ---- faults: the n-th opportunity of `kind` fires with probability permille/1000; the value is in [1, hi], 0 = none.
// Returns 0 whenever the run is in its recovery phase.
int64_t fault(const char* kind, int permille, int64_t hi = 1);
// fault site decided once per run and per kind (swarm): is this kind enabled in the current run at all?
void enable_fault(const char* kind, bool on);

// ---- oracle -----------------------------------------------------------------------------------------------------
// report a violation of the property under test and end the run
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// the run's inputs turned out to be useless (counted as trivial, not as evidence)
[[noreturn]] void discard(const char* why);
#define SIM_CHECK(cond, key, ...)          \
    do                                     \
    {                                      \
        if (!(cond))                       \
        {                                  \
            ::sim::fail(key, __VA_ARGS__); \
        }                                  \
    } while (0)

void probe(const char* name, int64_t n = 1);  // reach counter
void nontrivial();                            // mark this run as having exercised the property
void note(uint64_t v);                        // mixes v into the run's event hash
void note(const void* p, size_t n);
inline void note(const std::string& s)
{
    note(s.data(), s.size());
}
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // sample text of this run

// ---- environment knobs ------------------------------------------------------------------------------------------
void     set_hardware_concurrency(unsigned n);
void     set_step_cap(uint64_t steps);  // no-progress bound (before recovery phase)
void     set_ns_per_step(int64_t ns);  // how slow the machine is
void     may_take_forever();            // reaching the bound discards the run (searches whose size is unknown)
uint64_t now_ns();                      // simulated steady clock
void     advance_ns(uint64_t d);
uint64_t steps();
unsigned threads_started();
unsigned threads_unjoined();
uint64_t switches();
unsigned current_thread();  // simulated thread id, 1 = the thread that runs the scenario

// random_device regime: 0 = uniformly random values, 1 = constant, 2 = boundary values
void set_entropy_mode(int m);

// scratch files whose descriptors the simulated disk decides about
void        disk_reset();
void        disk_fail_write_at(int64_t byte, int err);  // fail when the n-th byte is written (-1: never)
void        disk_fail_read_at(int64_t byte, int err);
void        disk_fail_open(int err);
void        disk_chunk(int64_t max_bytes);  // short reads/writes of at most this many bytes (0: unlimited)
void        disk_eintr(int permille);
int64_t     disk_written();
int64_t     disk_faults_fired();
std::string scratch_dir();

// suspends instrumentation (preemption points and race detection) of the current thread: for oracle code
struct quiet
{
    quiet();
    ~quiet();
    quiet(const quiet&)            = delete;
    quiet& operator=(const quiet&) = delete;
};

using scenario_fn = void (*)();
struct registrar
{
    registrar(const char* name, scenario_fn fn, int weight);
};
}  // namespace sim

#define SIM_SCENARIO(name, weight)                                       \
    static void           scenario_##name();                             \
    static sim::registrar registrar_##name(#name, scenario_##name, weight); \
    static void           scenario_##name()
