// Deterministic simulator runtime.
//
// The scenarios (and the fiction code they include) are compiled with -fsanitize=thread but linked against this file
// instead of libtsan: every memory access and every atomic operation of the code under test calls into here.  The
// runtime owns thread scheduling, mutexes, condition variables, futexes, once-flags, clocks, std::random_device,
// std::thread::hardware_concurrency, the heap and (for scratch files) the disk.  Real pthreads exist, but exactly one
// of them runs at any time and the choice of who runs is made here from one seed.
//
// This file is compiled without instrumentation and must not instantiate inline library code that the instrumented
// objects also instantiate (the linker would merge them), hence the home-made containers.
#include "sim.hpp"

#include <atomic>
#include <bits/atomic_futex.h>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <random>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

#include <cxxabi.h>

#define PUB extern "C" __attribute__((visibility("default"), used, noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace
{
// ---------------------------------------------------------------------------------------------------------------
// raw system calls (never through interposable symbols)
// ---------------------------------------------------------------------------------------------------------------
long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long          ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    asm volatile("syscall"
                 : "=a"(ret)
                 : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                 : "rcx", "r11", "memory");
    return ret;
}
template <typename... A>
long raw(long n, A... a)
{
    return raw6(n, (long)a...);
}
long ret_errno(long r)
{
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}
double real_time()
{
    timespec ts{};
    raw(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
uint64_t hstr(const char* s)
{
    uint64_t h = 1469598103934665603ULL;
    while (*s)
    {
        h = (h ^ (unsigned char)*s++) * 1099511628211ULL;
    }
    return mix(h);
}

// ---------------------------------------------------------------------------------------------------------------
// memory layout
// ---------------------------------------------------------------------------------------------------------------
constexpr uintptr_t APP      = 0x100000000000ULL;
constexpr size_t    HEAP_SZ  = 3ULL << 30;
constexpr size_t    STACK_SZ = 512u << 10;
constexpr size_t    GUARD_SZ = 16u << 10;
constexpr int       MAXTHR   = 1500;  // real threads per run
constexpr size_t    STACKS   = (STACK_SZ + GUARD_SZ) * MAXTHR;
constexpr size_t    MAIN_STACK_SZ = 64u << 20;
constexpr uintptr_t LIBS     = 0x500000000000ULL;
constexpr uintptr_t STACK0   = APP + HEAP_SZ;
constexpr uintptr_t MSTACK0  = STACK0 + STACKS;
constexpr uintptr_t APP_END  = MSTACK0 + MAIN_STACK_SZ;
constexpr uintptr_t SHADOW   = 0x200000000000ULL;  // 8 bytes of shadow per byte
constexpr uintptr_t GSHADOW  = 0x300000000000ULL;
constexpr uintptr_t RTHEAP   = 0x400000000000ULL;
constexpr size_t    RTHEAP_SZ = 2ULL << 30;

extern "C" char __data_start;  // NOLINT
extern "C" char _end;          // NOLINT
uintptr_t       g_gs, g_ge;    // globals range of the executable

struct cell
{
    uint32_t epoch;
    uint32_t pc;
    uint8_t  tid;
    uint8_t  mask;
    uint8_t  flags;  // 1 write 2 atomic
    uint8_t  pad[5];
};
static_assert(sizeof(cell) == 16);
constexpr uint8_t TID_FREED = 0xFF, TID_RED = 0xFE;

inline cell* shadow_of(uintptr_t a)
{
    if (LIKELY(a - APP < APP_END - APP))
    {
        return reinterpret_cast<cell*>(SHADOW + ((a - APP) & ~7ULL) * 8);
    }
    if (a - g_gs < g_ge - g_gs)
    {
        return reinterpret_cast<cell*>(GSHADOW + ((a - g_gs) & ~7ULL) * 8);
    }
    return nullptr;
}

// ---------------------------------------------------------------------------------------------------------------
// runtime-private bump memory
// ---------------------------------------------------------------------------------------------------------------
bool      g_mem_ready;
uintptr_t g_rt_brk;
void      map_at(uintptr_t a, size_t n)
{
    const long r = raw(SYS_mmap, a, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((uintptr_t)r != a)
    {
        const char m[] = "sim: cannot map arena\n";
        raw(SYS_write, 2, m, sizeof m - 1);
        raw(SYS_exit_group, 70);
    }
}
void mem_init()
{
    if (g_mem_ready)
    {
        return;
    }
    g_mem_ready = true;
    map_at(APP, APP_END - APP);
    map_at(SHADOW, (APP_END - APP) * 8);
    g_gs = (uintptr_t)&__data_start & ~7ULL;
    g_ge = ((uintptr_t)&_end + 7) & ~7ULL;
    map_at(GSHADOW, ((g_ge - g_gs) * 8 + 4095) & ~4095ULL);
    map_at(RTHEAP, RTHEAP_SZ);
    g_rt_brk = RTHEAP;
}
void* rt_alloc(size_t n)
{
    mem_init();
    n            = (n + 31) & ~15ULL;
    uintptr_t p  = g_rt_brk;
    *(size_t*)p  = n;
    g_rt_brk += n;
    if (g_rt_brk > RTHEAP + RTHEAP_SZ)
    {
        raw(SYS_exit_group, 71);
    }
    return (void*)(p + 16);
}

template <typename T>
struct rvec
{
    T*     d = nullptr;
    size_t n = 0, cap = 0;
    void   push(const T& v)
    {
        if (n == cap)
        {
            const size_t c = cap ? cap * 2 : 16;
            T*           e = (T*)rt_alloc(c * sizeof(T));
            for (size_t i = 0; i < n; ++i)
            {
                e[i] = d[i];
            }
            d   = e;
            cap = c;
        }
        d[n++] = v;
    }
    T&       operator[](size_t i) { return d[i]; }
    const T& operator[](size_t i) const { return d[i]; }
    T*       begin() { return d; }
    T*       end() { return d + n; }
};
template <typename V>
struct rmap  // u64 -> V, open addressing, key 0 reserved
{
    uint64_t* k   = nullptr;
    V*        v   = nullptr;
    size_t    cap = 0, n = 0;
    void      grow()
    {
        const size_t oc = cap;
        uint64_t*    ok = k;
        V*           ov = v;
        cap             = oc ? oc * 2 : 256;
        k               = (uint64_t*)rt_alloc(cap * 8);
        v               = (V*)rt_alloc(cap * sizeof(V));
        memset((void*)k, 0, cap * 8);
        memset((void*)v, 0, cap * sizeof(V));
        n = 0;
        for (size_t i = 0; i < oc; ++i)
        {
            if (ok[i])
            {
                get(ok[i]) = ov[i];
            }
        }
    }
    V* find(uint64_t key) const
    {
        if (!cap)
        {
            return nullptr;
        }
        for (size_t i = mix(key) & (cap - 1);; i = (i + 1) & (cap - 1))
        {
            if (k[i] == key)
            {
                return &v[i];
            }
            if (!k[i])
            {
                return nullptr;
            }
        }
    }
    V& get(uint64_t key)
    {
        if (n * 2 >= cap)
        {
            grow();
        }
        size_t i = mix(key) & (cap - 1);
        while (k[i] && k[i] != key)
        {
            i = (i + 1) & (cap - 1);
        }
        if (!k[i])
        {
            k[i] = key;
            ++n;
        }
        return v[i];
    }
};

// ---------------------------------------------------------------------------------------------------------------
// run result, shared with the parent
// ---------------------------------------------------------------------------------------------------------------
struct counter
{
    char    name[40];
    int64_t n;
};
enum class st : int
{
    NONE = 0,
    OK,
    DISCARD,
    VIOLATION,
    INTERNAL
};
struct result
{
    st       status;
    char     cls[32];
    char     key[128];
    char     msg[6000];
    char     desc[1500];
    int      nbt;
    uint64_t bt[40];
    uint64_t hash, ihash, steps, switches, sim_ns;
    unsigned threads;
    int      nontrivial;
    int      ncounters;
    counter  counters[160];
};
result* g_res;

int64_t* counter_of(const char* prefix, const char* name)
{
    char b[40];
    snprintf(b, sizeof b, "%s%s", prefix, name);
    for (int i = 0; i < g_res->ncounters; ++i)
    {
        if (!strcmp(g_res->counters[i].name, b))
        {
            return &g_res->counters[i].n;
        }
    }
    if (g_res->ncounters == 160)
    {
        return &g_res->counters[159].n;
    }
    counter& c = g_res->counters[g_res->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", b);
    c.n = 0;
    return &c.n;
}

// ---------------------------------------------------------------------------------------------------------------
// threads and vector clocks
// ---------------------------------------------------------------------------------------------------------------
constexpr int MAXTID = 240;
struct vclock
{
    uint32_t c[MAXTID];
};
enum class ts : uint8_t
{
    RUN,
    BLOCK,
    DONE
};
struct dtor_rec
{
    void (*f)(void*);
    void* o;
};
struct thread
{
    int       idx;
    uint8_t   slot;
    ts        state;
    bool      joined, detached, timed_out;
    pthread_t real;
    int       sem;
    void* (*fn)(void*);
    void*          arg;
    void*          ret;
    uint64_t       wait_key;
    const char*    wait_what;
    int64_t        deadline;  // ns, -1 none
    int            ignore;
    uint64_t       steps;
    uint64_t       run_since;
    int64_t        prio;
    bool           starved;
    rvec<dtor_rec> dtors;
    uint64_t       replay_pos;
    int            stack_idx;
    int            saved_errno;
};

bool     g_active;
int      g_in_rt;
int      g_off = 1;
thread*  g_cur;
rvec<thread*> g_threads;
int      g_nslots;
vclock   g_vc[MAXTID];
bool     g_slot_used[MAXTID];
int      g_nlive;  // started and not yet joined
bool     g_mt;
int64_t  g_budget, g_budget0;
uint64_t g_steps_total, g_switches;
uint64_t g_hash = 0x1234567, g_ihash = 0x7654321;
rmap<vclock*> g_sync;

// ---- seed / trace -------------------------------------------------------------------------------------------------
uint64_t g_seed, g_presim = 1, g_rd_n, g_rd_pre_n;
bool     g_replay;
bool     g_sampling = true;  // false: replay without scheduling randomness
struct sched_ent
{
    int      tid;
    uint64_t step;
    int      to;
};
struct named_ent
{
    char    name[40];
    int64_t n, value, lo, hi;
};
rvec<sched_ent> g_tr_sched;  // recorded
rvec<named_ent> g_tr_params, g_tr_faults;
rvec<sched_ent> g_in_sched;
rvec<named_ent> g_in_params, g_in_faults;
rmap<int64_t>   g_choose_n, g_fault_n, g_fault_off;
uint64_t        g_prng;
bool            g_recovery;
const char*     g_trace_out;
const char*     g_scenario_name = "";

uint64_t rnd()
{
    g_prng = g_prng * 6364136223846793005ULL + 1442695040888963407ULL;
    return mix(g_prng);
}

// ---- configuration of a run -----------------------------------------------------------------------------------------
int      c_strategy, c_interval, c_psync, c_spurious, c_entropy;
int64_t  c_ns_per_step = 1;
uint64_t c_cap         = 60'000'000;
unsigned c_hw          = 4;
int      c_fill        = 0xA5;
int64_t  g_time_extra;
int64_t  g_sys_skew;
int      c_pct_left;
uint64_t g_spin_guard = 400'000;

struct rt_guard
{
    rt_guard()
    {
        ++g_in_rt;
        ++g_off;
    }
    ~rt_guard()
    {
        --g_in_rt;
        --g_off;
    }
};

uint64_t total_steps()
{
    return g_steps_total + (uint64_t)(g_budget0 - g_budget);
}
void fold_budget()
{
    const auto used = (uint64_t)(g_budget0 - g_budget);
    g_steps_total += used;
    if (g_cur)
    {
        g_cur->steps += used;
    }
    g_budget0 = g_budget;
}

void write_trace(const char* path)
{
    FILE* f = fopen(path, "w");
    if (!f)
    {
        return;
    }
    fprintf(f, "scenario %s\nseed %llu\npresim %llu\n", g_scenario_name, (unsigned long long)g_seed,
            (unsigned long long)g_presim);
    for (auto& e : g_tr_params)
    {
        fprintf(f, "param %s %lld %lld %lld %lld\n", e.name, (long long)e.n, (long long)e.value, (long long)e.lo,
                (long long)e.hi);
    }
    for (auto& e : g_tr_faults)
    {
        fprintf(f, "fault %s %lld %lld\n", e.name, (long long)e.n, (long long)e.value);
    }
    for (auto& e : g_tr_sched)
    {
        fprintf(f, "sched %d %llu %d\n", e.tid, (unsigned long long)e.step, e.to);
    }
    fclose(f);
}

[[noreturn]] void finish(st s)
{
    g_active = false;
    ++g_off;
    ++g_in_rt;
    fold_budget();
    g_res->hash     = g_hash;
    g_res->ihash    = g_ihash;
    g_res->steps    = g_steps_total;
    g_res->switches = g_switches;
    g_res->sim_ns   = (uint64_t)g_time_extra + g_steps_total * (uint64_t)c_ns_per_step;
    g_res->threads  = (unsigned)g_threads.n;
    if (g_trace_out)
    {
        write_trace(g_trace_out);
    }
    g_res->status = s;
    raw(SYS_exit_group, 0);
    __builtin_unreachable();
}

void take_bt()
{
    void* b[40];
    const int n = backtrace(b, 40);
    g_res->nbt  = 0;
    for (int i = 0; i < n; ++i)
    {
        g_res->bt[g_res->nbt++] = (uint64_t)b[i];
    }
}

[[noreturn]] void violation(const char* cls, const char* key, const char* msg)
{
    ++g_off;
    ++g_in_rt;
    if (g_res->status != st::NONE || g_res->cls[0])
    {
        finish(st::VIOLATION);
    }
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    snprintf(g_res->key, sizeof g_res->key, "%s", key);
    snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
    take_bt();
    finish(st::VIOLATION);
}
[[noreturn]] void internal_error(const char* msg)
{
    ++g_off;
    ++g_in_rt;
    snprintf(g_res->cls, sizeof g_res->cls, "internal");
    snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
    finish(st::INTERNAL);
}

// ---------------------------------------------------------------------------------------------------------------
// scheduler
// ---------------------------------------------------------------------------------------------------------------
void futex_wait_raw(int* a, int v)
{
    raw(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
void futex_wake_raw(int* a)
{
    raw(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void park(thread* t)
{
    while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0)
    {
        futex_wait_raw(&t->sem, 0);
    }
    __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE);
}
void unpark(thread* t)
{
    __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
    futex_wake_raw(&t->sem);
}

int64_t now_raw()
{
    return g_time_extra + (int64_t)total_steps() * c_ns_per_step;
}

int64_t next_interval()
{
    // geometric-ish
    const uint64_t r = rnd() % 1000;
    int64_t        m = c_interval;
    if (r < 300)
    {
        return 1 + (int64_t)(rnd() % (uint64_t)(m / 2 + 1));
    }
    if (r < 900)
    {
        return 1 + (int64_t)(rnd() % (uint64_t)(2 * m));
    }
    return 1 + (int64_t)(rnd() % (uint64_t)(10 * m));
}

void set_budget(thread* t)
{
    int64_t b = 100'000;
    if (g_sampling && !g_recovery)
    {
        if (c_strategy == 0 || c_strategy == 1 || c_strategy == 4)
        {
            b = next_interval();
        }
        else if (c_strategy == 3)
        {
            b = c_interval;
        }
    }
    else if (g_replay && !g_sampling && !g_recovery)
    {
        // next explicit decision of this thread
        const uint64_t pos = t->steps;
        for (size_t i = 0; i < g_in_sched.n; ++i)
        {
            const auto& e = g_in_sched[i];
            if (e.tid == t->idx && e.step > pos)
            {
                const auto d = (int64_t)(e.step - pos);
                b            = d < b ? d : b;
            }
        }
    }
    else if (g_recovery)
    {
        b = 2000;
    }
    g_budget0 = g_budget = b;
}

bool runnable(thread* t)
{
    if (t->state == ts::RUN)
    {
        return true;
    }
    if (t->state == ts::BLOCK && t->deadline >= 0 && now_raw() >= t->deadline)
    {
        return true;
    }
    return false;
}
void wake_if_timed(thread* t)
{
    if (t->state == ts::BLOCK)
    {
        t->timed_out = true;
        t->state     = ts::RUN;
        t->deadline  = -1;
    }
}

void switch_to(thread* t)
{
    thread* self = g_cur;
    wake_if_timed(t);
    if (t == self)
    {
        return;
    }
    ++g_switches;
    g_ihash           = (g_ihash ^ ((uint64_t)t->idx << 32) ^ self->steps) * 0x9E3779B97F4A7C15ULL;
    g_ihash ^= g_ihash >> 29;
    self->saved_errno = errno;
    const int off_save = g_off, rt_save = g_in_rt;
    const int ign_save = self->ignore;
    (void)ign_save;
    g_cur = t;
    // g_off/g_in_rt are per-thread notions: save ours, the other thread restores its own after park()
    unpark(t);
    if (self->state == ts::DONE)
    {
        for (;;)
        {
            int z = 0;
            futex_wait_raw(&z, 0);
        }
    }
    park(self);
    g_off   = off_save;
    g_in_rt = rt_save;
    errno   = self->saved_errno;
}

bool g_unbounded;  // the run's work has no useful bound
void check_cap()
{
    if (!g_recovery && g_steps_total > c_cap)
    {
        g_recovery   = true;  // faults stop, fair scheduling
        c_spurious   = 0;
        (*counter_of("rt.", "recovery_phase"))++;
    }
    else if (g_recovery && g_steps_total > 2 * c_cap)
    {
        if (g_unbounded)
        {
            sim::discard("search too large");
        }
        char b[3000];
        int  o = snprintf(b, sizeof b, "no completion within %llu further steps after faults stopped; threads:",
                          (unsigned long long)c_cap);
        for (auto* t : g_threads)
        {
            if (t->state != ts::DONE && o < 2800)
            {
                o += snprintf(b + o, sizeof b - (size_t)o, " [%d %s]", t->idx,
                              t->state == ts::RUN ? "running" : t->wait_what);
            }
        }
        violation("no-progress", "livelock", b);
    }
}

// pick a thread among the runnable ones; cur_ok: the current thread may continue
thread* pick(bool cur_ok, bool forced)
{
    const uint64_t key_step = g_cur->steps;
    const int      self     = g_cur->idx;
    thread*        cand[MAXTHR];
    int            n = 0;
    for (auto* t : g_threads)
    {
        if (t != g_cur && runnable(t))
        {
            cand[n++] = t;
        }
    }
    if (n == 0)
    {
        if (cur_ok)
        {
            return g_cur;
        }
        return nullptr;
    }
    // deterministic default: round robin after self
    thread* dflt = cand[0];
    for (int i = 0; i < n; ++i)
    {
        if (cand[i]->idx > self)
        {
            dflt = cand[i];
            break;
        }
    }
    if (g_recovery)
    {
        return dflt;
    }
    if (!g_sampling)
    {
        for (auto& e : g_in_sched)
        {
            if (e.tid == self && e.step == key_step)
            {
                for (int i = 0; i < n; ++i)
                {
                    if (cand[i]->idx == e.to)
                    {
                        return cand[i];
                    }
                }
            }
        }
        if (!forced && cur_ok)
        {
            return g_cur;
        }
        return dflt;
    }
    thread* c = nullptr;
    if (c_strategy == 1 || c_strategy == 2)  // PCT
    {
        thread* best = cur_ok ? g_cur : nullptr;
        for (int i = 0; i < n; ++i)
        {
            if (!best || cand[i]->prio > best->prio)
            {
                best = cand[i];
            }
        }
        c = best;
    }
    else if (c_strategy == 4)  // starvation of some threads
    {
        thread* good[MAXTHR];
        int     m = 0;
        for (int i = 0; i < n; ++i)
        {
            if (!cand[i]->starved)
            {
                good[m++] = cand[i];
            }
        }
        if (m > 0)
        {
            c = good[rnd() % (uint64_t)m];
        }
        else if (cur_ok && !forced)
        {
            c = g_cur;
        }
        else
        {
            c = cand[rnd() % (uint64_t)n];
        }
        if (rnd() % 16 == 0)
        {
            c->starved = !c->starved;
        }
    }
    else
    {
        c = cand[rnd() % (uint64_t)n];
    }
    if (c != g_cur && !(forced && c == dflt))
    {
        g_tr_sched.push({self, key_step, c->idx});
    }
    return c;
}

void maybe_switch(bool forced)
{
    fold_budget();
    check_cap();
    thread* self = g_cur;
    if (self->steps - self->run_since > g_spin_guard && g_threads.n > 1)
    {
        // fairness guard: nobody keeps the processor for ever
        self->run_since = self->steps;
        self->prio      = -(int64_t)g_switches - 1'000'000;
        for (auto* t : g_threads)
        {
            t->starved = false;
        }
        forced = true;
    }
    if (g_nlive <= 1 && g_threads.n <= 1)
    {
        set_budget(self);
        return;
    }
    thread* t = pick(true, forced);
    if (t && t != self)
    {
        t->run_since = t->steps;
        switch_to(t);
    }
    set_budget(g_cur);
}

__attribute__((noinline)) void slow_access()
{
    rt_guard g;
    fold_budget();
    if (g_sampling && !g_recovery && c_strategy == 1 && c_pct_left > 0 && g_mt)
    {
        --c_pct_left;
        g_cur->prio = -(int64_t)(100 - c_pct_left);
    }
    if (g_sampling && !g_recovery && (c_strategy == 2))
    {
        check_cap();
        if (g_cur->steps - g_cur->run_since > g_spin_guard)
        {
            maybe_switch(false);
            return;
        }
        set_budget(g_cur);
        return;
    }
    maybe_switch(false);
}

// a synchronisation operation is about to happen
void sync_point(uint64_t what)
{
    if (!g_active)
    {
        return;
    }
    if (what >= LIBS)
    {
        what &= 0xfff;  // shared libraries are loaded at addresses that differ between processes
    }
    g_hash = (g_hash ^ what) * 0x9E3779B97F4A7C15ULL;
    if (g_cur->ignore)
    {
        return;
    }
    --g_budget;
    if (g_budget <= 0)
    {
        slow_access();
        return;
    }
    if (g_sampling && !g_recovery && g_mt)
    {
        if (c_strategy == 1 || c_strategy == 2)
        {
            rt_guard g;
            if (c_strategy == 2 && c_pct_left > 0 && rnd() % 100 < (uint64_t)c_psync / 4 + 1)
            {
                --c_pct_left;
                g_cur->prio = -(int64_t)(100 - c_pct_left);
            }
            maybe_switch(false);
        }
        else if (c_psync && rnd() % 100 < (uint64_t)c_psync)
        {
            rt_guard g;
            maybe_switch(false);
        }
    }
}

// the current thread cannot continue
void block(uint64_t key, const char* what, int64_t deadline)
{
    rt_guard g;
    --g_budget;
    fold_budget();
    thread* self    = g_cur;
    self->state     = ts::BLOCK;
    self->wait_key  = key;
    self->wait_what = what;
    self->deadline  = deadline;
    self->timed_out = false;
    check_cap();
    for (;;)
    {
        thread* t = pick(false, true);
        if (!t && runnable(self))
        {
            wake_if_timed(self);
            set_budget(self);
            return;
        }
        if (t)
        {
            t->run_since = t->steps;
            switch_to(t);
            set_budget(self);
            return;
        }
        // nobody can run: jump to the earliest deadline
        int64_t d = -1;
        for (auto* u : g_threads)
        {
            if (u->state == ts::BLOCK && u->deadline >= 0 && (d < 0 || u->deadline < d))
            {
                d = u->deadline;
            }
        }
        if (d < 0)
        {
            char b[3000];
            int  o = snprintf(b, sizeof b, "all threads are blocked:");
            for (auto* u : g_threads)
            {
                if (u->state != ts::DONE && o < 2800)
                {
                    o += snprintf(b + o, sizeof b - (size_t)o, " [%d waits for %s]", u->idx, u->wait_what);
                }
            }
            violation("deadlock", "deadlock", b);
        }
        g_time_extra += d - now_raw();
        (*counter_of("rt.", "clock_jump_idle"))++;
    }
}
void wake_all(uint64_t key)
{
    for (auto* t : g_threads)
    {
        if (t->state == ts::BLOCK && t->wait_key == key)
        {
            t->state     = ts::RUN;
            t->deadline  = -1;
            t->timed_out = false;
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// happens-before
// ---------------------------------------------------------------------------------------------------------------
void vc_join(vclock& a, const vclock& b)
{
    for (int i = 0; i < g_nslots; ++i)
    {
        a.c[i] = a.c[i] < b.c[i] ? b.c[i] : a.c[i];
    }
}
vclock*& sync_of(uint64_t addr)
{
    vclock*& p = g_sync.get(addr);
    if (!p)
    {
        p = (vclock*)rt_alloc(sizeof(vclock));
        memset((void*)p, 0, sizeof(vclock));
    }
    return p;
}
void hb_acquire(uint64_t addr)
{
    if (!g_active || !g_cur)
    {
        return;
    }
    rt_guard g;
    if (vclock** p = g_sync.find(addr))
    {
        if (*p)
        {
            vc_join(g_vc[g_cur->slot], **p);
        }
    }
}
void hb_release(uint64_t addr, bool replace)
{
    if (!g_active || !g_cur)
    {
        return;
    }
    rt_guard g;
    vclock*  p  = sync_of(addr);
    vclock&  me = g_vc[g_cur->slot];
    if (replace)
    {
        for (int i = 0; i < g_nslots; ++i)
        {
            p->c[i] = me.c[i];
        }
    }
    else
    {
        vc_join(*p, me);
    }
    ++me.c[g_cur->slot];
}
void hb_clear(uint64_t addr)
{
    if (!g_active || !g_cur)
    {
        return;
    }
    if (vclock** p = g_sync.find(addr))
    {
        if (*p)
        {
            memset((void*)*p, 0, sizeof(vclock));
        }
    }
}

__attribute__((noinline)) void report_race(const cell& c, uintptr_t a, bool w, bool at, uintptr_t pc)
{
    char msg[600], key[128];
    if (c.tid == TID_FREED || c.tid == TID_RED)
    {
        snprintf(msg, sizeof msg, "%s of %s heap memory at %#lx", w ? "write" : "read",
                 c.tid == TID_FREED ? "freed" : "out-of-bounds", (unsigned long)a);
        snprintf(key, sizeof key, "%s@%#lx", c.tid == TID_FREED ? "use-after-free" : "heap-overflow",
                 (unsigned long)pc);
        violation("memory", key, msg);
    }
    snprintf(msg, sizeof msg,
             "data race on %#lx: thread %d %s%s at pc %#lx, unordered with earlier %s%s by thread slot %d at pc %#x",
             (unsigned long)a, g_cur->idx, at ? "atomic " : "", w ? "write" : "read", (unsigned long)pc,
             (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", c.tid, c.pc);
    const unsigned long p1 = pc, p2 = c.pc;
    snprintf(key, sizeof key, "race@%#lx/%#lx", p1 < p2 ? p1 : p2, p1 < p2 ? p2 : p1);
    violation("race", key, msg);
}

inline void acc1(uintptr_t a, uint8_t mask, uint8_t fl, uintptr_t pc, cell* s)
{
    if (UNLIKELY(s[0].tid >= TID_RED && s[0].mask))
    {
        report_race(s[0], a, fl & 1, fl & 2, pc);
    }
    if (!g_mt)
    {
        return;
    }
    const uint8_t  t = g_cur->slot;
    const vclock&  me = g_vc[t];
    const uint32_t e = me.c[t];
    int            put = -1, empty = -1, old = -1;
    for (int i = 0; i < 4; ++i)
    {
        cell& c = s[i];
        if (!c.mask)
        {
            empty = empty < 0 ? i : empty;
            continue;
        }
        if (c.tid == t)
        {
            if (c.mask == mask && (c.flags | fl) == fl)
            {
                put = i;
            }
            else if (c.mask == mask && c.epoch == e && (c.flags & 2) == (fl & 2) && (c.flags & 1))
            {
                put = -2;  // an at least as strong access of ours is already recorded in this epoch
            }
            continue;
        }
        const bool hb = c.epoch <= me.c[c.tid];
        if (hb)
        {
            if ((c.mask & mask) == c.mask && ((fl & 1) || !(c.flags & 1)))
            {
                old = i;
            }
            continue;
        }
        if ((c.mask & mask) && ((c.flags | fl) & 1) && !((c.flags & fl) & 2))
        {
            report_race(c, a, fl & 1, fl & 2, pc);
        }
    }
    if (put == -2)
    {
        return;
    }
    const int w = put >= 0 ? put : old >= 0 ? old : empty >= 0 ? empty : (int)((a >> 3) + e + (uint32_t)g_budget) & 3;
    s[w]        = cell{e, (uint32_t)pc, t, mask, fl, {}};
}

inline void access(uintptr_t a, unsigned size, uint8_t fl, uintptr_t pc)
{
    if (LIKELY(g_off))
    {
        return;
    }
    if (UNLIKELY(--g_budget <= 0))
    {
        slow_access();
    }
    cell* s = shadow_of(a);
    if (!s)
    {
        return;
    }
    g_hash = (g_hash ^ a ^ fl) * 0x9E3779B97F4A7C15ULL;
    const unsigned o = a & 7;
    if (LIKELY(o + size <= 8))
    {
        acc1(a, (uint8_t)(((1u << size) - 1) << o), fl, pc, s);
        return;
    }
    uintptr_t p = a, e = a + size;
    while (p < e)
    {
        const unsigned  off = p & 7;
        const unsigned  n   = (unsigned)(e - p < 8 - off ? e - p : 8 - off);
        cell* const     q   = shadow_of(p);
        if (q)
        {
            acc1(p, (uint8_t)(((1u << n) - 1) << off), fl, pc, q);
        }
        p += n;
    }
}
inline void access_range(uintptr_t a, size_t n, uint8_t fl, uintptr_t pc)
{
    if (g_off || n == 0)
    {
        return;
    }
    if (--g_budget <= 0)
    {
        slow_access();
    }
    g_hash      = (g_hash ^ (a >= LIBS ? a & 0xfff : a) ^ n) * 0x9E3779B97F4A7C15ULL;
    uintptr_t p = a, e = a + n;
    while (p < e)
    {
        const unsigned off = p & 7;
        const unsigned m   = (unsigned)(e - p < 8 - off ? e - p : 8 - off);
        cell* const    q   = shadow_of(p);
        if (q)
        {
            acc1(p, (uint8_t)(((1u << m) - 1) << off), fl, pc, q);
        }
        p += m;
    }
}

// ---------------------------------------------------------------------------------------------------------------
// heap
// ---------------------------------------------------------------------------------------------------------------
struct hdr
{
    uint64_t size;   // usable size
    uint32_t magic;  // 0xA110C8ED live, 0xF4EEF4EE free
    uint32_t cls;
};
uintptr_t g_brk;
void*     g_free[200];
struct fifo
{
    void*  p[8192];
    size_t head, n, bytes;
} g_quar;

int size_class(size_t n, size_t& rounded)
{
    if (n <= 1024)
    {
        rounded = n == 0 ? 16 : (n + 15) & ~15ULL;
        return (int)(rounded / 16) - 1;
    }
    int    c = 64;
    size_t s = 1024;
    for (;;)
    {
        for (int q = 1; q <= 4; ++q)
        {
            const size_t v = s + s / 4 * (size_t)q;
            if (n <= v)
            {
                rounded = v;
                return c;
            }
            ++c;
        }
        s *= 2;
    }
}
void mark(uintptr_t a, size_t n, uint8_t tid)
{
    for (uintptr_t p = a & ~7ULL; p < a + n; p += 8)
    {
        cell* s = shadow_of(p);
        s[0].tid  = tid;
        s[0].mask = 0xFF;
    }
}
void unmark(uintptr_t a, size_t n, bool full)
{
    if (full)
    {
        cell* s = shadow_of(a);
        memset((void*)s, 0, ((n + 7) & ~7ULL) * 8);
    }
    else
    {
        for (uintptr_t p = a; p < a + n; p += 8)
        {
            cell* s = shadow_of(p);
            s[0].tid  = 0;
            s[0].mask = 0;
        }
    }
}
bool in_rtheap(void* p)
{
    return (uintptr_t)p - RTHEAP < RTHEAP_SZ;
}
bool     g_heap_mt;  // shadow history may exist in heap blocks
uint64_t g_allocs;

void* heap_alloc(size_t n)
{
    mem_init();
    if (g_in_rt)
    {
        return rt_alloc(n);
    }
    if (n > HEAP_SZ / 2)
    {
        errno = ENOMEM;
        return nullptr;
    }
    if (!g_brk)
    {
        g_brk = APP + 4096;
    }
    ++g_allocs;
    size_t    r;
    const int c = size_class(n, r);
    uintptr_t p;
    if (g_free[c])
    {
        p         = (uintptr_t)g_free[c];
        g_free[c] = *(void**)p;
    }
    else
    {
        p = g_brk + 16;
        if (p + r > APP + HEAP_SZ)
        {
            errno = ENOMEM;
            return nullptr;
        }
        g_brk = p + r;
        mark(p - 16, 16, TID_RED);
    }
    hdr* h   = (hdr*)(p - 16);
    h->size  = n;
    h->magic = 0xA110C8ED;
    h->cls   = (uint32_t)c;
    unmark(p, r, g_heap_mt);
    const size_t used = (n + 7) & ~7ULL;
    if (used < r)
    {
        mark(p + used, r - used, TID_RED);
    }
    if (g_active)
    {
        memset((void*)p, c_fill, n < 4096 ? n : 4096);
    }
    else
    {
        memset((void*)p, 0xA5, n < 4096 ? n : 4096);
    }
    return (void*)p;
}
void heap_free(void* ptr, uintptr_t pc)
{
    if (!ptr || in_rtheap(ptr))
    {
        return;
    }
    const auto p = (uintptr_t)ptr;
    if (p - APP >= HEAP_SZ)
    {
        return;  // not ours (dynamic loader)
    }
    hdr* h = (hdr*)(p - 16);
    if (h->magic != 0xA110C8ED)
    {
        if (h->magic == 0xA119A119)  // aligned block: real header further down
        {
            heap_free((void*)h->size, pc);
            return;
        }
        if (g_res && g_active)
        {
            violation("memory", "bad-free", h->magic == 0xF4EEF4EE ? "double free" : "free of a non-heap pointer");
        }
        return;
    }
    size_t r;
    size_class(h->size, r);
    if (g_active && !g_off && g_mt && pc - 0x400000 < 0x40000000)
    {
        // freeing is a write to the whole block
        const size_t lim = h->size < 4096 ? h->size : 4096;
        for (uintptr_t q = p; q < p + lim; q += 8)
        {
            cell* s = shadow_of(q);
            for (int i = 0; i < 4; ++i)
            {
                if (s[i].mask && s[i].tid < MAXTID && s[i].tid != g_cur->slot &&
                    s[i].epoch > g_vc[g_cur->slot].c[s[i].tid])
                {
                    report_race(s[i], q, true, false, pc);
                }
            }
        }
    }
    h->magic = 0xF4EEF4EE;
    mark(p, r, TID_FREED);
    if (g_active)
    {
        memset(ptr, 0xDD, h->size < 256 ? h->size : 256);
    }
    g_quar.bytes += r;
    if (g_quar.n == 8192)
    {
        hdr* o = (hdr*)((uintptr_t)g_quar.p[g_quar.head] - 16);
        size_t orr;
        size_class(o->size, orr);
        g_quar.bytes -= orr;
        *(void**)g_quar.p[g_quar.head] = g_free[o->cls];
        g_free[o->cls]                 = g_quar.p[g_quar.head];
        g_quar.head                    = (g_quar.head + 1) % 8192;
        --g_quar.n;
    }
    g_quar.p[(g_quar.head + g_quar.n) % 8192] = ptr;
    ++g_quar.n;
    while (g_quar.bytes > (4u << 20) && g_quar.n > 0)
    {
        hdr* o = (hdr*)((uintptr_t)g_quar.p[g_quar.head] - 16);
        size_t orr;
        size_class(o->size, orr);
        g_quar.bytes -= orr;
        *(void**)g_quar.p[g_quar.head] = g_free[o->cls];
        g_free[o->cls]                 = g_quar.p[g_quar.head];
        g_quar.head                    = (g_quar.head + 1) % 8192;
        --g_quar.n;
    }
}
}  // namespace

#define RPC ((uintptr_t)__builtin_return_address(0) - 1)

PUB void* malloc(size_t n)
{
    return heap_alloc(n);
}
PUB void free(void* p)
{
    heap_free(p, RPC);
}
PUB void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
    {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = heap_alloc(n);
    if (p)
    {
        memset(p, 0, n);
    }
    return p;
}
static size_t block_size(void* p)
{
    if (in_rtheap(p))
    {
        return *(size_t*)((uintptr_t)p - 16) - 16;
    }
    hdr* h = (hdr*)((uintptr_t)p - 16);
    if (h->magic == 0xA119A119)
    {
        const hdr* o = (hdr*)(h->size - 16);
        return o->size - ((uintptr_t)p - h->size);
    }
    return h->size;
}
PUB void* realloc(void* p, size_t n)
{
    if (!p)
    {
        return heap_alloc(n);
    }
    void* q = heap_alloc(n);
    if (q)
    {
        const size_t o = block_size(p);
        memcpy(q, p, o < n ? o : n);
        heap_free(p, 0);
    }
    return q;
}
PUB void* memalign(size_t al, size_t n)
{
    if (al <= 16)
    {
        return heap_alloc(n);
    }
    const auto base = (uintptr_t)heap_alloc(n + al + 32);
    if (!base)
    {
        return nullptr;
    }
    const uintptr_t p = (base + 16 + al - 1) & ~(al - 1);
    if (in_rtheap((void*)base))
    {
        *(size_t*)(p - 16) = n + 16;
        return (void*)p;
    }
    hdr* h   = (hdr*)(p - 16);
    h->size  = base;
    h->magic = 0xA119A119;
    return (void*)p;
}
PUB void* aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
PUB int posix_memalign(void** out, size_t al, size_t n)
{
    *out = memalign(al, n);
    return *out ? 0 : ENOMEM;
}
PUB void* valloc(size_t n)
{
    return memalign(4096, n);
}
PUB size_t malloc_usable_size(void* p)
{
    return p ? block_size(p) : 0;
}

// operator new/delete: attribute the free to the caller, not to libstdc++
void* operator new(size_t n)
{
    void* p = heap_alloc(n);
    if (!p)
    {
        throw std::bad_alloc{};
    }
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void operator delete(void* p) noexcept
{
    heap_free(p, RPC);
}
void operator delete[](void* p) noexcept
{
    heap_free(p, RPC);
}
void operator delete(void* p, size_t) noexcept
{
    heap_free(p, RPC);
}
void operator delete[](void* p, size_t) noexcept
{
    heap_free(p, RPC);
}

// ---------------------------------------------------------------------------------------------------------------
// TSan ABI
// ---------------------------------------------------------------------------------------------------------------
#define T1(name, size, fl)                    \
    PUB void __tsan_##name(void* a)           \
    {                                         \
        access((uintptr_t)a, size, fl, RPC);  \
    }
T1(read1, 1, 0)
T1(read2, 2, 0)
T1(read4, 4, 0)
T1(read8, 8, 0)
T1(read16, 16, 0)
T1(write1, 1, 1)
T1(write2, 2, 1)
T1(write4, 4, 1)
T1(write8, 8, 1)
T1(write16, 16, 1)
T1(unaligned_read2, 2, 0)
T1(unaligned_read4, 4, 0)
T1(unaligned_read8, 8, 0)
T1(unaligned_read16, 16, 0)
T1(unaligned_write2, 2, 1)
T1(unaligned_write4, 4, 1)
T1(unaligned_write8, 8, 1)
T1(unaligned_write16, 16, 1)
T1(volatile_read1, 1, 0)
T1(volatile_read2, 2, 0)
T1(volatile_read4, 4, 0)
T1(volatile_read8, 8, 0)
T1(volatile_write1, 1, 1)
T1(volatile_write2, 2, 1)
T1(volatile_write4, 4, 1)
T1(volatile_write8, 8, 1)
#undef T1
PUB void __tsan_init() {}
PUB void __tsan_func_entry(void*) {}
PUB void __tsan_func_exit() {}
PUB void __tsan_ignore_thread_begin() {}
PUB void __tsan_ignore_thread_end() {}
PUB void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
    {
        access((uintptr_t)p, 8, 1, RPC);
    }
}
PUB void __tsan_vptr_read(void** p)
{
    access((uintptr_t)p, 8, 0, RPC);
}
PUB void __tsan_read_range(void* a, size_t n)
{
    access_range((uintptr_t)a, n, 0, RPC);
}
PUB void __tsan_write_range(void* a, size_t n)
{
    access_range((uintptr_t)a, n, 1, RPC);
}
PUB void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access_range((uintptr_t)s, n, 0, RPC);
    access_range((uintptr_t)d, n, 1, RPC);
    return memcpy(d, s, n);
}
PUB void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access_range((uintptr_t)s, n, 0, RPC);
    access_range((uintptr_t)d, n, 1, RPC);
    return memmove(d, s, n);
}
PUB void* __tsan_memset(void* d, int c, size_t n)
{
    access_range((uintptr_t)d, n, 1, RPC);
    return memset(d, c, n);
}

enum
{
    MO_RELAXED,
    MO_CONSUME,
    MO_ACQUIRE,
    MO_RELEASE,
    MO_ACQ_REL,
    MO_SEQ_CST
};
static inline bool is_acq(int m)
{
    return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ_CST;
}
static inline bool is_rel(int m)
{
    return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST;
}
static void at_begin(uintptr_t a, unsigned size, bool w, uintptr_t pc)
{
    if (g_off)
    {
        return;
    }
    sync_point(a >= LIBS ? ((a & 0xfff) << 1) | w : (a << 1) | w);
    ++g_budget;  // access() takes the step
    access(a, size, (uint8_t)(2 | (w ? 1 : 0)), pc);
}
#define TA(bits_, T)                                                                              \
    PUB T __tsan_atomic##bits_##_load(const volatile T* a, int mo)                                \
    {                                                                                             \
        at_begin((uintptr_t)a, bits_ / 8, false, RPC);                                            \
        const T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                         \
        if (is_acq(mo))                                                                           \
            hb_acquire((uint64_t)a);                                                              \
        return v;                                                                                 \
    }                                                                                             \
    PUB void __tsan_atomic##bits_##_store(volatile T* a, T v, int mo)                             \
    {                                                                                             \
        at_begin((uintptr_t)a, bits_ / 8, true, RPC);                                             \
        if (is_rel(mo))                                                                           \
            hb_release((uint64_t)a, true);                                                        \
        else                                                                                      \
            hb_clear((uint64_t)a);                                                                \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                             \
    PUB T __tsan_atomic##bits_##_exchange(volatile T* a, T v, int mo)                             \
    {                                                                                             \
        at_begin((uintptr_t)a, bits_ / 8, true, RPC);                                             \
        if (is_acq(mo))                                                                           \
            hb_acquire((uint64_t)a);                                                              \
        if (is_rel(mo))                                                                           \
            hb_release((uint64_t)a, false);                                                       \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                       \
    }                                                                                             \
    TF(bits_, T, add, __atomic_fetch_add)                                                         \
    TF(bits_, T, sub, __atomic_fetch_sub)                                                         \
    TF(bits_, T, and, __atomic_fetch_and)                                                         \
    TF(bits_, T, or, __atomic_fetch_or)                                                           \
    TF(bits_, T, xor, __atomic_fetch_xor)                                                         \
    TF(bits_, T, nand, __atomic_fetch_nand)                                                       \
    static int cas##bits_(volatile T* a, T* c, T v, int mo, int fmo, uintptr_t pc)                \
    {                                                                                             \
        at_begin((uintptr_t)a, bits_ / 8, true, pc);                                              \
        const bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok)                                                                                   \
        {                                                                                         \
            if (is_acq(mo))                                                                       \
                hb_acquire((uint64_t)a);                                                          \
            if (is_rel(mo))                                                                       \
                hb_release((uint64_t)a, false);                                                   \
        }                                                                                         \
        else if (is_acq(fmo))                                                                     \
            hb_acquire((uint64_t)a);                                                              \
        return ok;                                                                                \
    }                                                                                             \
    PUB int __tsan_atomic##bits_##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                                             \
        return cas##bits_(a, c, v, mo, fmo, RPC);                                                 \
    }                                                                                             \
    PUB int __tsan_atomic##bits_##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                                             \
        if (!g_off && g_mt && sim::fault("weak-cas-fail", c_spurious))                            \
        {                                                                                         \
            at_begin((uintptr_t)a, bits_ / 8, true, RPC);                                         \
            *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                            \
            return 0;                                                                             \
        }                                                                                         \
        return cas##bits_(a, c, v, mo, fmo, RPC);                                                 \
    }                                                                                             \
    PUB T __tsan_atomic##bits_##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)   \
    {                                                                                             \
        cas##bits_(a, &c, v, mo, fmo, RPC);                                                       \
        return c;                                                                                 \
    }
#define TF(bits_, T, name, op)                                                     \
    PUB T __tsan_atomic##bits_##_fetch_##name(volatile T* a, T v, int mo)          \
    {                                                                              \
        at_begin((uintptr_t)a, bits_ / 8, true, RPC);                              \
        if (is_acq(mo))                                                            \
            hb_acquire((uint64_t)a);                                               \
        if (is_rel(mo))                                                            \
            hb_release((uint64_t)a, false);                                        \
        return op(a, v, __ATOMIC_SEQ_CST);                                         \
    }
TA(8, uint8_t)
TA(16, uint16_t)
TA(32, uint32_t)
TA(64, uint64_t)
PUB void __tsan_atomic_thread_fence(int mo)
{
    if (g_off)
    {
        return;
    }
    sync_point(0xFE);
    if (is_acq(mo))
    {
        hb_acquire(0xFE);
    }
    if (is_rel(mo))
    {
        hb_release(0xFE, false);
    }
}
PUB void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------------------------------
// threads
// ---------------------------------------------------------------------------------------------------------------
static void* trampoline(void* p)
{
    thread* t = (thread*)p;
    stack_t ss{};
    {
        ss.ss_size = 64 << 10;
        ss.ss_sp   = (void*)raw(SYS_mmap, 0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        raw(SYS_sigaltstack, &ss, 0);
    }
    park(t);
    g_off   = 0;
    g_in_rt = 0;
    set_budget(t);
    t->ret = t->fn(t->arg);
    // C++ thread_local destructors, under simulator control
    while (t->dtors.n)
    {
        const dtor_rec d = t->dtors[--t->dtors.n];
        d.f(d.o);
    }
    if (t->idx == 1)
    {
        finish(st::OK);
    }
    ++g_off;
    ++g_in_rt;
    sync_point(0xD0E ^ (uint64_t)t->idx);
    fold_budget();
    --g_budget;
    fold_budget();
    t->state = ts::DONE;
    wake_all((uint64_t)t);
    check_cap();
    for (;;)
    {
        thread* n = pick(false, true);
        if (n)
        {
            n->run_since = n->steps;
            switch_to(n);  // never returns for a finished thread
        }
        int64_t d = -1;
        for (auto* u : g_threads)
        {
            if (u->state == ts::BLOCK && u->deadline >= 0 && (d < 0 || u->deadline < d))
            {
                d = u->deadline;
            }
        }
        if (d < 0)
        {
            violation("deadlock", "deadlock", "all remaining threads are blocked");
        }
        g_time_extra += d - now_raw();
    }
}

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static thread* new_thread(void* (*fn)(void*), void* arg)
{
    const int idx = (int)g_threads.n + 1;
    if (idx >= MAXTHR)
    {
        sim::discard("too many threads in one run");
    }
    thread* t = (thread*)rt_alloc(sizeof(thread));
    memset((void*)t, 0, sizeof *t);
    t->idx      = idx;
    t->fn       = fn;
    t->arg      = arg;
    t->deadline = -1;
    t->state    = ts::RUN;
    // clock slot: reuse that of a joined thread
    int s = -1;
    for (int i = 0; i < g_nslots; ++i)
    {
        if (!g_slot_used[i])
        {
            s = i;
            break;
        }
    }
    if (s < 0)
    {
        if (g_nslots == MAXTID)
        {
            internal_error("too many live threads in one run");
        }
        s = g_nslots++;
        for (int i = 0; i < g_nslots; ++i)
        {
            g_vc[i].c[s] = i == s ? 1 : 0;
        }
    }
    g_slot_used[s] = true;
    t->slot        = (uint8_t)s;
    if (g_cur)
    {
        const uint32_t own = g_vc[s].c[s];
        for (int i = 0; i < g_nslots; ++i)
        {
            g_vc[s].c[i] = g_vc[g_cur->slot].c[i];
        }
        g_vc[s].c[s] = (own > g_vc[s].c[s] ? own : g_vc[s].c[s]) + 1;
        ++g_vc[g_cur->slot].c[g_cur->slot];
    }
    else
    {
        ++g_vc[s].c[s];
    }
    t->prio = g_sampling ? (int64_t)(rnd() % 1'000'000) + 1 : 0;
    t->starved = g_sampling && c_strategy == 4 && idx > 1 && rnd() % 3 == 0;
    g_threads.push(t);
    ++g_nlive;
    if (g_nlive > 1)
    {
        g_mt = g_heap_mt = true;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    if (idx == 1)
    {
        pthread_attr_setstack(&at, (void*)MSTACK0, MAIN_STACK_SZ);
    }
    else
    {
        const uintptr_t lo = STACK0 + (uintptr_t)(idx - 1) * (STACK_SZ + GUARD_SZ);
        raw(SYS_mprotect, lo, GUARD_SZ, PROT_NONE);
        pthread_attr_setstack(&at, (void*)(lo + GUARD_SZ), STACK_SZ);
    }
    const int r = real_create(&t->real, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (r != 0)
    {
        internal_error("real pthread_create failed");
    }
    return t;
}

PUB int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!real_create)
    {
        real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    }
    if (!g_active)
    {
        return real_create(out, at, fn, arg);
    }
    sync_point(0xC0);
    thread* t;
    {
        rt_guard g;
        t    = new_thread(fn, arg);
        *out = t->real;
        if (at)
        {
            int ds = 0;
            pthread_attr_getdetachstate(at, &ds);
            t->detached = ds == PTHREAD_CREATE_DETACHED;
        }
    }
    sync_point(0xC1);
    return 0;
}
static thread* find_thread(pthread_t h)
{
    for (auto* t : g_threads)
    {
        if (t->real == h)
        {
            return t;
        }
    }
    return nullptr;
}
PUB int pthread_join(pthread_t h, void** ret)
{
    if (!g_active)
    {
        static int (*f)(pthread_t, void**);
        if (!f)
        {
            f = (decltype(f))dlsym(RTLD_NEXT, "pthread_join");
        }
        return f(h, ret);
    }
    sync_point(0xA0);
    thread* t = find_thread(h);
    if (!t || t->joined || t->detached)
    {
        return EINVAL;
    }
    if (t == g_cur)
    {
        return EDEADLK;
    }
    while (t->state != ts::DONE)
    {
        block((uint64_t)t, "join", -1);
    }
    rt_guard g;
    t->joined = true;
    vc_join(g_vc[g_cur->slot], g_vc[t->slot]);
    g_slot_used[t->slot] = false;
    if (--g_nlive <= 1)
    {
        g_mt = false;
    }
    if (ret)
    {
        *ret = t->ret;
    }
    return 0;
}
PUB int pthread_detach(pthread_t h)
{
    if (!g_active)
    {
        return 0;
    }
    if (thread* t = find_thread(h))
    {
        t->detached = true;
    }
    return 0;
}

PUB int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso)
{
    if (g_active && g_cur)
    {
        rt_guard g;
        g_cur->dtors.push({f, o});
        return 0;
    }
    (void)dso;
    return 0;
}

// ---------------------------------------------------------------------------------------------------------------
// mutexes etc.  State lives in the object itself so that re-initialisation of memory behaves naturally.
// ---------------------------------------------------------------------------------------------------------------
static int self_id()
{
    return g_active && g_cur ? g_cur->idx : 0x7fff;
}
static int64_t abs_deadline(clockid_t c, const timespec* t)
{
    int64_t d = (int64_t)t->tv_sec * 1'000'000'000 + t->tv_nsec;
    if (c == CLOCK_REALTIME)
    {
        d -= 1'700'000'000LL * 1'000'000'000 + g_sys_skew;
    }
    else
    {
        d -= 1'000'000'000'000LL;
    }
    return d < 0 ? 0 : d;
}
static int mtx_lock(pthread_mutex_t* m, bool try_, int64_t deadline)
{
    auto& s = m->__data;
    sync_point((uint64_t)m);
    while (s.__lock)
    {
        if (s.__owner == self_id() && (s.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
        {
            ++s.__count;
            return 0;
        }
        if (try_)
        {
            return EBUSY;
        }
        if (!g_active)
        {
            return EDEADLK;
        }
        block((uint64_t)m, "mutex", deadline);
        if (g_cur->timed_out)
        {
            return ETIMEDOUT;
        }
    }
    s.__lock  = 1;
    s.__owner = self_id();
    s.__count = 1;
    hb_acquire((uint64_t)m);
    return 0;
}
PUB int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset((void*)m, 0, sizeof *m);
    if (a)
    {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    return 0;
}
PUB int pthread_mutex_destroy(pthread_mutex_t*)
{
    return 0;
}
PUB int pthread_mutex_lock(pthread_mutex_t* m)
{
    return mtx_lock(m, false, -1);
}
PUB int pthread_mutex_trylock(pthread_mutex_t* m)
{
    return mtx_lock(m, true, -1);
}
PUB int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
    return mtx_lock(m, false, abs_deadline(CLOCK_REALTIME, t));
}
PUB int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
{
    return mtx_lock(m, false, abs_deadline(c, t));
}
PUB int pthread_mutex_unlock(pthread_mutex_t* m)
{
    auto& s = m->__data;
    if (g_active && g_cur && !g_in_rt)
    {
        if (!s.__lock || s.__owner != self_id())
        {
            if (s.__owner != 0x7fff)
            {
                violation("sync-misuse", "unlock-not-owned", "a mutex is unlocked by a thread that does not hold it");
            }
        }
    }
    if (s.__count > 1)
    {
        --s.__count;
        return 0;
    }
    hb_release((uint64_t)m, false);
    s.__lock  = 0;
    s.__owner = 0;
    s.__count = 0;
    if (g_active && g_cur)
    {
        wake_all((uint64_t)m);
        sync_point((uint64_t)m ^ 1);
    }
    return 0;
}

// rwlock: __readers = number of readers, __cur_writer = writer id
static int rw_lock(pthread_rwlock_t* l, bool write, bool try_, int64_t deadline)
{
    auto& s = l->__data;
    sync_point((uint64_t)l);
    while (s.__cur_writer || (write && s.__readers))
    {
        if (try_)
        {
            return EBUSY;
        }
        if (s.__cur_writer && s.__cur_writer == self_id())
        {
            return EDEADLK;
        }
        if (!g_active)
        {
            return EDEADLK;
        }
        block((uint64_t)l, "rwlock", deadline);
        if (g_cur->timed_out)
        {
            return ETIMEDOUT;
        }
    }
    if (write)
    {
        s.__cur_writer = self_id();
        hb_acquire((uint64_t)l);
        hb_acquire((uint64_t)l + 1);
    }
    else
    {
        ++s.__readers;
        hb_acquire((uint64_t)l);
    }
    return 0;
}
PUB int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset((void*)l, 0, sizeof *l);
    return 0;
}
PUB int pthread_rwlock_destroy(pthread_rwlock_t*)
{
    return 0;
}
PUB int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    return rw_lock(l, false, false, -1);
}
PUB int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    return rw_lock(l, true, false, -1);
}
PUB int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    return rw_lock(l, false, true, -1);
}
PUB int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    return rw_lock(l, true, true, -1);
}
PUB int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t)
{
    return rw_lock(l, false, false, abs_deadline(c, t));
}
PUB int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t)
{
    return rw_lock(l, true, false, abs_deadline(c, t));
}
PUB int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    auto& s = l->__data;
    if (s.__cur_writer)
    {
        hb_release((uint64_t)l, true);
        s.__cur_writer = 0;
    }
    else if (s.__readers)
    {
        hb_release((uint64_t)l + 1, false);
        --s.__readers;
    }
    if (g_active && g_cur)
    {
        wake_all((uint64_t)l);
        sync_point((uint64_t)l ^ 1);
    }
    return 0;
}

static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    if (!g_active)
    {
        return 0;
    }
    sync_point((uint64_t)c);
    if (sim::fault("spurious-wakeup", c_spurious))
    {
        pthread_mutex_unlock(m);
        sync_point((uint64_t)c ^ 2);
        pthread_mutex_lock(m);
        return 0;
    }
    // atomically release and wait
    auto& s = m->__data;
    hb_release((uint64_t)m, false);
    const unsigned cnt = s.__count;
    s.__lock           = 0;
    s.__owner          = 0;
    s.__count          = 0;
    wake_all((uint64_t)m);
    block((uint64_t)c, "condition variable", deadline);
    const bool to = g_cur->timed_out;
    mtx_lock(m, false, -1);
    s.__count = cnt;
    return to ? ETIMEDOUT : 0;
}
PUB int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset((void*)c, 0, sizeof *c);
    return 0;
}
PUB int pthread_cond_destroy(pthread_cond_t*)
{
    return 0;
}
PUB int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return cv_wait(c, m, -1);
}
PUB int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    return cv_wait(c, m, abs_deadline(CLOCK_REALTIME, t));
}
PUB int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* t)
{
    return cv_wait(c, m, abs_deadline(ck, t));
}
PUB int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (g_active)
    {
        sync_point((uint64_t)c ^ 3);
        wake_all((uint64_t)c);
    }
    return 0;
}
PUB int pthread_cond_signal(pthread_cond_t* c)
{
    if (!g_active)
    {
        return 0;
    }
    sync_point((uint64_t)c ^ 4);
    rvec<thread*> w;
    rt_guard      g;
    for (auto* t : g_threads)
    {
        if (t->state == ts::BLOCK && t->wait_key == (uint64_t)c)
        {
            w.push(t);
        }
    }
    if (w.n)
    {
        const int64_t i = w.n > 1 ? sim::fault("cv-wake-other", 500, (int64_t)w.n - 1) : 0;
        thread*       t = w[(size_t)i % w.n];
        t->state        = ts::RUN;
        t->deadline     = -1;
        t->timed_out    = false;
    }
    return 0;
}

PUB int pthread_once(pthread_once_t* o, void (*f)())
{
    for (;;)
    {
        if (*o == 2)
        {
            hb_acquire((uint64_t)o);
            return 0;
        }
        if (*o == 0)
        {
            *o = 1;
            if (g_active && g_cur)
            {
                sync_point((uint64_t)o);
            }
            try
            {
                f();
            }
            catch (...)
            {
                *o = 0;
                if (g_active)
                {
                    wake_all((uint64_t)o);
                }
                throw;
            }
            hb_release((uint64_t)o, false);
            *o = 2;
            if (g_active)
            {
                wake_all((uint64_t)o);
            }
            return 0;
        }
        if (!g_active)
        {
            return EDEADLK;
        }
        block((uint64_t)o, "once", -1);
    }
}

PUB int __cxa_guard_acquire(__cxxabiv1::__guard* gg)
{
    auto* g = reinterpret_cast<uint8_t*>(gg);
    if (g_active && g_cur)
    {
        sync_point((uint64_t)g);
    }
    for (;;)
    {
        if (g[0])
        {
            hb_acquire((uint64_t)g);
            return 0;
        }
        if (!g[1])
        {
            g[1] = 1;
            return 1;
        }
        if (!g_active)
        {
            return 1;
        }
        block((uint64_t)g, "static initialisation", -1);
    }
}
PUB void __cxa_guard_release(__cxxabiv1::__guard* gg) noexcept
{
    auto* g = reinterpret_cast<uint8_t*>(gg);
    hb_release((uint64_t)g, false);
    g[0] = 1;
    g[1] = 0;
    if (g_active)
    {
        wake_all((uint64_t)g);
    }
}
PUB void __cxa_guard_abort(__cxxabiv1::__guard* gg) noexcept
{
    auto* g = reinterpret_cast<uint8_t*>(gg);
    g[1] = 0;
    if (g_active)
    {
        wake_all((uint64_t)g);
    }
}

// ---- futures ----------------------------------------------------------------------------------------------------
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, std::chrono::seconds s,
                                                            std::chrono::nanoseconds ns)
{
    if (!g_active)
    {
        return true;
    }
    sync_point((uint64_t)a);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v)
    {
        return true;
    }
    timespec t{s.count(), ns.count()};
    block((uint64_t)a, "future", has ? abs_deadline(CLOCK_REALTIME, &t) : -1);
    return !g_cur->timed_out;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has,
                                                                   std::chrono::seconds     s,
                                                                   std::chrono::nanoseconds ns)
{
    if (!g_active)
    {
        return true;
    }
    sync_point((uint64_t)a);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v)
    {
        return true;
    }
    timespec t{s.count(), ns.count()};
    block((uint64_t)a, "future", has ? abs_deadline(CLOCK_MONOTONIC, &t) : -1);
    return !g_cur->timed_out;
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (g_active)
    {
        sync_point((uint64_t)a ^ 5);
        wake_all((uint64_t)a);
    }
}
PUB long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a)
    {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (n == SYS_futex && g_active)
    {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point((uint64_t)a[0]);
            if (__atomic_load_n((int*)a[0], __ATOMIC_SEQ_CST) != (int)a[2])
            {
                errno = EAGAIN;
                return -1;
            }
            int64_t d = -1;
            if (a[3])
            {
                const auto* t = (const timespec*)a[3];
                if (op == FUTEX_WAIT)
                {
                    d = now_raw() + t->tv_sec * 1'000'000'000 + t->tv_nsec;
                }
                else
                {
                    d = abs_deadline((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
                }
            }
            block((uint64_t)a[0], "futex", d);
            if (g_cur->timed_out)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            sync_point((uint64_t)a[0] ^ 6);
            wake_all((uint64_t)a[0]);
            return 1;
        }
    }
    return ret_errno(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---------------------------------------------------------------------------------------------------------------
// time
// ---------------------------------------------------------------------------------------------------------------
static int64_t sim_clock(bool steady)
{
    sync_point(0x71);
    if (!g_in_rt)
    {
        const int64_t j = sim::fault("clock-jump", 30, 8);
        if (j)
        {
            static const int64_t amt[] = {0,          1'000,         50'000,          1'000'000,      20'000'000,
                                          400'000'000, 5'000'000'000, 3'600'000'000'000, 30'000'000'000};
            g_time_extra += amt[j];
        }
        if (!steady)
        {
            const int64_t k = sim::fault("clock-step-back", 10, 3);
            if (k)
            {
                g_sys_skew -= k == 1 ? 1'000'000 : k == 2 ? 2'000'000'000 : 100'000'000;
            }
        }
    }
    const int64_t n = now_raw();
    g_time_extra += 20;
    return steady ? n + 1'000'000'000'000LL : n + 1'700'000'000LL * 1'000'000'000 + g_sys_skew;
}
static void do_sleep(int64_t ns)
{
    const int64_t late = sim::fault("late-wakeup", 100, 5);
    block(0x51EE9, "sleep", now_raw() + (ns < 0 ? 0 : ns) + late * 7'000'000);
}
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept
{
    int64_t n;
    if (g_active)
    {
        n = sim_clock(false);
    }
    else
    {
        timespec t{};
        raw(SYS_clock_gettime, CLOCK_REALTIME, &t);
        n = t.tv_sec * 1'000'000'000 + t.tv_nsec;
    }
    return time_point(duration(n));
}
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{
    int64_t n;
    if (g_active)
    {
        n = sim_clock(true);
    }
    else
    {
        timespec t{};
        raw(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
        n = t.tv_sec * 1'000'000'000 + t.tv_nsec;
    }
    return time_point(duration(n));
}
PUB int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if (!g_active)
    {
        return (int)ret_errno(raw(SYS_clock_gettime, c, t));
    }
    const int64_t n = sim_clock(c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE);
    t->tv_sec       = n / 1'000'000'000;
    t->tv_nsec      = n % 1'000'000'000;
    return 0;
}
PUB int gettimeofday(timeval* t, void*) noexcept
{
    timespec s{};
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec  = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
PUB time_t time(time_t* o) noexcept
{
    timespec s{};
    clock_gettime(CLOCK_REALTIME, &s);
    if (o)
    {
        *o = s.tv_sec;
    }
    return s.tv_sec;
}
PUB clock_t clock() noexcept
{
    timespec s{};
    clock_gettime(CLOCK_MONOTONIC, &s);
    return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / 1000;
}
// the calls that return a buffer all threads share: a race unless the callers exclude each other
namespace
{
std::tm g_shared_tm;
char    g_shared_date[64];
}  // namespace
PUB std::tm* localtime(const time_t* t) noexcept
{
    access_range((uintptr_t)&g_shared_tm, sizeof g_shared_tm, 1, RPC);
    return localtime_r(t, &g_shared_tm);
}
PUB std::tm* gmtime(const time_t* t) noexcept
{
    access_range((uintptr_t)&g_shared_tm, sizeof g_shared_tm, 1, RPC);
    return gmtime_r(t, &g_shared_tm);
}
PUB char* asctime(const std::tm* t) noexcept
{
    access_range((uintptr_t)g_shared_date, 26, 1, RPC);
    return asctime_r(t, g_shared_date);
}
PUB char* ctime(const time_t* t) noexcept
{
    return asctime(localtime(t));
}
PUB int nanosleep(const timespec* r, timespec*)
{
    if (!g_active)
    {
        return (int)ret_errno(raw(SYS_nanosleep, r, 0));
    }
    do_sleep(r->tv_sec * 1'000'000'000 + r->tv_nsec);
    return 0;
}
PUB int clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec*)
{
    if (!g_active)
    {
        return (int)-raw(SYS_clock_nanosleep, c, flags, r, 0);
    }
    if (flags & TIMER_ABSTIME)
    {
        do_sleep(abs_deadline(c, r) - now_raw());
    }
    else
    {
        do_sleep(r->tv_sec * 1'000'000'000 + r->tv_nsec);
    }
    return 0;
}
PUB int usleep(useconds_t us)
{
    timespec t{us / 1000000, (long)(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
PUB unsigned sleep(unsigned s)
{
    timespec t{s, 0};
    nanosleep(&t, nullptr);
    return 0;
}
PUB int sched_yield() noexcept
{
    if (g_active && g_cur && !g_in_rt)
    {
        rt_guard g;
        --g_budget;
        fold_budget();
        if (g_sampling && (c_strategy == 1 || c_strategy == 2))
        {
            g_cur->prio = -(int64_t)g_switches - 1000;
        }
        if (g_sampling || g_recovery)
        {
            maybe_switch(true);
        }
        else
        {
            maybe_switch(true);
        }
    }
    return 0;
}

// ---------------------------------------------------------------------------------------------------------------
// randomness and hardware
// ---------------------------------------------------------------------------------------------------------------
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init_pretr1(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
    if (!g_active)
    {
        return (result_type)mix(g_presim * 0x1357 + ++g_rd_pre_n);
    }
    sync_point(0x4d);
    (*counter_of("fault.", "entropy-draw"))++;
    const uint64_t n = ++g_rd_n;
    switch (c_entropy)
    {
        case 1: return (result_type)mix(g_seed ^ 0x777);
        case 2: return (n & 1) ? 0u : 0xFFFFFFFFu;
        default: return (result_type)mix(g_seed * 0x9177 + n);
    }
}
std::random_device::result_type std::random_device::_M_getval_pretr1()
{
    return _M_getval();
}
double std::random_device::_M_getentropy() const noexcept
{
    return 32.0;
}
unsigned std::thread::hardware_concurrency() noexcept
{
    return g_active ? c_hw : 4;
}

// ---------------------------------------------------------------------------------------------------------------
// simulated disk: descriptors opened below the scratch directory while the simulation is active
// ---------------------------------------------------------------------------------------------------------------
namespace
{
bool    d_fd[1024];
char    d_dir[128];
int64_t d_wfail = -1, d_rfail = -1, d_written, d_read, d_chunk, d_fired;
int     d_werr, d_rerr, d_openerr, d_eintr;
bool    under_scratch(const char* p)
{
    return d_dir[0] && strncmp(p, d_dir, strlen(d_dir)) == 0;
}
void mark_fd(int fd, const char* p)
{
    if (fd >= 0 && fd < 1024)
    {
        d_fd[fd] = g_active && under_scratch(p);
    }
}
}  // namespace
PUB FILE* fopen(const char* p, const char* m)
{
    static FILE* (*f)(const char*, const char*);
    if (!f)
    {
        f = (decltype(f))dlsym(RTLD_NEXT, "fopen");
    }
    if (g_active && under_scratch(p) && d_openerr)
    {
        ++d_fired;
        (*counter_of("fault.", "disk-open"))++;
        errno = d_openerr;
        return nullptr;
    }
    FILE* r = f(p, m);
    if (r)
    {
        mark_fd(fileno(r), p);
    }
    return r;
}
PUB FILE* fopen64(const char* p, const char* m)
{
    return fopen(p, m);
}
PUB int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    const int mode = va_arg(ap, int);
    va_end(ap);
    if (g_active && under_scratch(p) && d_openerr)
    {
        ++d_fired;
        (*counter_of("fault.", "disk-open"))++;
        errno = d_openerr;
        return -1;
    }
    const int fd = (int)ret_errno(raw(SYS_openat, AT_FDCWD, p, fl, mode));
    mark_fd(fd, p);
    return fd;
}
static ssize_t disk_write(int fd, const char* b, size_t n)
{
    if (sim::fault("disk-eintr", d_eintr))
    {
        ++d_fired;
        errno = EINTR;
        return -1;
    }
    if (d_chunk > 0 && (int64_t)n > d_chunk)
    {
        n = (size_t)d_chunk;
        (*counter_of("fault.", "disk-short-write"))++;
    }
    if (d_wfail >= 0)
    {
        if (d_written >= d_wfail)
        {
            ++d_fired;
            (*counter_of("fault.", "disk-write-error"))++;
            errno = d_werr;
            return -1;
        }
        if (d_written + (int64_t)n > d_wfail)
        {
            n = (size_t)(d_wfail - d_written);
            (*counter_of("fault.", "disk-torn-write"))++;
        }
    }
    const ssize_t r = ret_errno(raw(SYS_write, fd, b, n));
    if (r > 0)
    {
        d_written += r;
    }
    return r;
}
PUB ssize_t write(int fd, const void* b, size_t n)
{
    if (g_active && fd >= 0 && fd < 1024 && d_fd[fd])
    {
        sync_point(0xD1);
        return disk_write(fd, (const char*)b, n);
    }
    return ret_errno(raw(SYS_write, fd, b, n));
}
PUB ssize_t writev(int fd, const iovec* v, int c)
{
    if (g_active && fd >= 0 && fd < 1024 && d_fd[fd])
    {
        sync_point(0xD2);
        ssize_t tot = 0;
        for (int i = 0; i < c; ++i)
        {
            if (!v[i].iov_len)
            {
                continue;
            }
            const ssize_t r = disk_write(fd, (const char*)v[i].iov_base, v[i].iov_len);
            if (r < 0)
            {
                return tot ? tot : r;
            }
            tot += r;
            if ((size_t)r < v[i].iov_len)
            {
                break;
            }
        }
        return tot;
    }
    return ret_errno(raw(SYS_writev, fd, v, c));
}
PUB ssize_t read(int fd, void* b, size_t n)
{
    if (g_active && fd >= 0 && fd < 1024 && d_fd[fd])
    {
        sync_point(0xD3);
        if (sim::fault("disk-eintr", d_eintr))
        {
            ++d_fired;
            errno = EINTR;
            return -1;
        }
        if (d_chunk > 0 && (int64_t)n > d_chunk)
        {
            n = (size_t)d_chunk;
            (*counter_of("fault.", "disk-short-read"))++;
        }
        if (d_rfail >= 0)
        {
            if (d_read >= d_rfail)
            {
                ++d_fired;
                (*counter_of("fault.", "disk-read-error"))++;
                errno = d_rerr;
                return -1;
            }
            if (d_read + (int64_t)n > d_rfail)
            {
                n = (size_t)(d_rfail - d_read);
            }
        }
        const ssize_t r = ret_errno(raw(SYS_read, fd, b, n));
        if (r > 0)
        {
            d_read += r;
        }
        return r;
    }
    return ret_errno(raw(SYS_read, fd, b, n));
}

// ---------------------------------------------------------------------------------------------------------------
// failures of the process under test
// ---------------------------------------------------------------------------------------------------------------
PUB void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept
{
    if (g_active)
    {
        char b[1200], k[128];
        snprintf(b, sizeof b, "assertion failed: %s (%s:%u, %s)", e, f, l, fn);
        snprintf(k, sizeof k, "assert:%.110s", e);
        violation("assert", k, b);
    }
    fprintf(stderr, "assertion failed: %s (%s:%u)\n", e, f, l);
    raw(SYS_exit_group, 72);
    __builtin_unreachable();
}
namespace std
{
void __glibcxx_assert_fail(const char* f, int l, const char* fn, const char* e) noexcept;
void __glibcxx_assert_fail(const char* f, int l, const char* fn, const char* e) noexcept
{
    __assert_fail(e ? e : "?", f, (unsigned)l, fn);
}
}  // namespace std
static void on_terminate()
{
    char b[900] = "std::terminate called";
    if (g_active)
    {
        ++g_in_rt;
        ++g_off;
        if (auto p = std::current_exception())
        {
            try
            {
                std::rethrow_exception(p);
            }
            catch (const std::exception& e)
            {
                snprintf(b, sizeof b, "std::terminate called, uncaught exception: %s", e.what());
            }
            catch (...)
            {
                snprintf(b, sizeof b, "std::terminate called, uncaught exception of unknown type");
            }
        }
        violation("terminate", "terminate", b);
    }
    raw(SYS_exit_group, 73);
}
PUB void abort() noexcept
{
    if (g_active)
    {
        violation("abort", "abort", "abort() called");
    }
    raw(SYS_exit_group, 74);
    __builtin_unreachable();
}
static void on_signal(int s, siginfo_t* si, void* uc)
{
    char b[200], k[64];
    const auto* u = (const ucontext_t*)uc;
    snprintf(b, sizeof b, "signal %d at address %p, pc %#llx", s, si->si_addr, u->uc_mcontext.gregs[REG_RIP]);
    snprintf(k, sizeof k, "signal-%d", s);
    if (g_active || g_cur)
    {
        if (s == SIGVTALRM)
        {
            violation("hang", "hang", "no end within the processor-time limit (uninstrumented loop)");
        }
        violation("crash", k, b);
    }
    raw(SYS_exit_group, 75);
}

// ---------------------------------------------------------------------------------------------------------------
// sim:: API
// ---------------------------------------------------------------------------------------------------------------
namespace sim
{
static const named_ent* lookup(const rvec<named_ent>& l, const char* name, int64_t n)
{
    for (size_t i = 0; i < l.n; ++i)
    {
        if (l[i].n == n && !strcmp(l[i].name, name))
        {
            return &l[i];
        }
    }
    return nullptr;
}
int64_t choose(const char* name, int64_t lo, int64_t hi)
{
    rt_guard g;
    if (hi < lo)
    {
        hi = lo;
    }
    const uint64_t h = hstr(name);
    const int64_t  n = g_choose_n.get(h)++;
    int64_t        v = lo + (int64_t)(mix(mix(g_seed ^ h) + (uint64_t)n) % (uint64_t)(hi - lo + 1));
    if (g_replay)
    {
        if (const auto* e = lookup(g_in_params, name, n))
        {
            v = e->value < lo ? lo : e->value > hi ? hi : e->value;
        }
    }
    named_ent r{};
    snprintf(r.name, sizeof r.name, "%s", name);
    r.n     = n;
    r.value = v;
    r.lo    = lo;
    r.hi    = hi;
    if (g_trace_out)
    {
        g_tr_params.push(r);
    }
    g_hash = (g_hash ^ (uint64_t)v) * 0x9E3779B97F4A7C15ULL;
    return v;
}
bool chance(const char* name, int percent)
{
    return choose(name, 0, 99) >= 100 - percent;
}
double real(const char* name, double lo, double hi)
{
    return lo + (hi - lo) * (double)choose(name, 0, 1 << 20) / (double)(1 << 20);
}
uint64_t bits(const char* name)
{
    return (uint64_t)choose(name, 0, 0x7fffffffffffff);
}
void enable_fault(const char* kind, bool on)
{
    rt_guard g;
    g_fault_off.get(hstr(kind)) = on ? 2 : 1;
}
int64_t fault(const char* kind, int permille, int64_t hi)
{
    if (!g_active || g_recovery || (permille <= 0 && !g_replay))
    {
        return 0;
    }
    rt_guard       g;
    const uint64_t h = hstr(kind);
    if (const auto* o = g_fault_off.find(h))
    {
        if (*o == 1)
        {
            return 0;
        }
    }
    const int64_t n = g_fault_n.get(h)++;
    int64_t       v = 0;
    if (!g_sampling)
    {
        const auto* e = lookup(g_in_faults, kind, n);
        v             = e ? (e->value > hi ? hi : e->value) : 0;
    }
    else
    {
        const uint64_t r = mix(mix(g_seed ^ h ^ 0xFA017) + (uint64_t)n);
        if ((int64_t)(r % 1000) < permille)
        {
            v = 1 + (int64_t)((r >> 20) % (uint64_t)hi);
        }
    }
    if (v)
    {
        named_ent e{};
        snprintf(e.name, sizeof e.name, "%s", kind);
        e.n     = n;
        e.value = v;
        if (g_trace_out)
        {
            g_tr_faults.push(e);
        }
        (*counter_of("fault.", kind))++;
        g_hash = (g_hash ^ (uint64_t)v ^ h) * 0x9E3779B97F4A7C15ULL;
    }
    return v;
}
void fail(const char* key, const char* fmt, ...)
{
    char b[5000];
    ++g_off;
    ++g_in_rt;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    violation("oracle", key, b);
}
void discard(const char* why)
{
    rt_guard g;
    (*counter_of("discard.", why))++;
    finish(st::DISCARD);
}
void probe(const char* name, int64_t n)
{
    rt_guard g;
    *counter_of("probe.", name) += n;
}
void nontrivial()
{
    g_res->nontrivial = 1;
}
void note(uint64_t v)
{
    g_hash = (mix(g_hash) ^ v) * 0x9E3779B97F4A7C15ULL;
}
void note(const void* p, size_t n)
{
    uint64_t h = n;
    for (size_t i = 0; i < n; ++i)
    {
        h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ULL;
    }
    note(h);
}
void describe(const char* fmt, ...)
{
    rt_guard     g;
    const size_t o = strlen(g_res->desc);
    va_list      ap;
    va_start(ap, fmt);
    vsnprintf(g_res->desc + o, sizeof g_res->desc - o, fmt, ap);
    va_end(ap);
}
void set_hardware_concurrency(unsigned n)
{
    c_hw = n;
}
void set_step_cap(uint64_t s)
{
    c_cap = s;
}
void set_ns_per_step(int64_t ns)
{
    g_time_extra += (int64_t)total_steps() * (c_ns_per_step - ns);
    c_ns_per_step = ns;
}
void may_take_forever()
{
    g_unbounded = true;
}
uint64_t now_ns()
{
    return (uint64_t)now_raw();
}
void advance_ns(uint64_t d)
{
    g_time_extra += (int64_t)d;
}
uint64_t steps()
{
    return total_steps();
}
unsigned threads_started()
{
    return (unsigned)g_threads.n;
}
unsigned threads_unjoined()
{
    return (unsigned)g_nlive - 1;
}
uint64_t switches()
{
    return g_switches;
}
unsigned current_thread()
{
    return g_cur ? (unsigned)g_cur->idx : 0;
}
void set_entropy_mode(int m)
{
    c_entropy = m;
}
void disk_reset()
{
    d_wfail = d_rfail = -1;
    d_written = d_read = d_chunk = d_fired = 0;
    d_werr = d_rerr = d_openerr = d_eintr = 0;
}
void disk_fail_write_at(int64_t b, int e)
{
    d_wfail = b;
    d_werr  = e;
}
void disk_fail_read_at(int64_t b, int e)
{
    d_rfail = b;
    d_rerr  = e;
}
void disk_fail_open(int e)
{
    d_openerr = e;
}
void disk_chunk(int64_t m)
{
    d_chunk = m;
}
void disk_eintr(int p)
{
    d_eintr = p;
}
int64_t disk_written()
{
    return d_written;
}
int64_t disk_faults_fired()
{
    return d_fired;
}
std::string scratch_dir()
{
    return d_dir;
}
quiet::quiet()
{
    if (g_cur)
    {
        ++g_cur->ignore;
    }
    ++g_off;
}
quiet::~quiet()
{
    --g_off;
    if (g_cur)
    {
        --g_cur->ignore;
    }
}

struct scen
{
    const char* name;
    scenario_fn fn;
    int         weight;
};
static scen g_scen[64];
static int  g_nscen;
registrar::registrar(const char* name, scenario_fn fn, int weight)
{
    g_scen[g_nscen++] = {name, fn, weight};
}
static scenario_fn g_fn;
}  // namespace sim

// ---------------------------------------------------------------------------------------------------------------
// driver
// ---------------------------------------------------------------------------------------------------------------
static void* scenario_main(void*)
{
    sim::g_fn();
    return nullptr;
}
static void configure_run()
{
    using sim::choose;
    static const int iv[] = {6, 25, 100, 500, 3000, 30000};
    static const int ps[] = {0, 10, 30, 60, 100};
    static const int sp[] = {0, 0, 40, 250};
    static const int ns[] = {1, 1, 20, 1000};
    c_strategy            = (int)choose("rt.strategy", 0, 4);
    c_interval            = iv[choose("rt.interval", 0, 5)];
    c_psync               = ps[choose("rt.psync", 0, 4)];
    c_spurious            = sp[choose("rt.spurious", 0, 3)];
    c_ns_per_step         = ns[choose("rt.ns_per_step", 0, 3)];
    c_fill                = (int)choose("rt.heap_fill", 0, 3);
    c_fill                = c_fill == 0 ? 0x00 : c_fill == 1 ? 0xFF : c_fill == 2 ? 0xA5 : 0x01;
    c_entropy             = choose("rt.entropy", 0, 9) < 8 ? 0 : (int)choose("rt.entropy_mode", 1, 2);
    c_pct_left            = (int)choose("rt.pct_depth", 1, 8);
    static const unsigned hw[] = {4, 1, 2, 3, 8, 16, 0};
    c_hw                  = hw[choose("rt.hw", 0, 6)];
    // which fault kinds are enabled in this run (swarm)
    sim::enable_fault("clock-jump", choose("rt.clkjump", 0, 2) == 2);
    sim::enable_fault("clock-step-back", choose("rt.clkback", 0, 3) == 3);
}

[[noreturn]] static void run_child(const sim::scen& s, uint64_t seed, double cpu_limit)
{
    g_seed          = seed;
    g_scenario_name = s.name;
    sim::g_fn       = s.fn;
    g_prng          = mix(seed ^ 0x5ced);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for (const int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM})
    {
        sigaction(sg, &sa, nullptr);
    }
    itimerval it{};
    it.it_value.tv_sec = (time_t)cpu_limit;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    std::set_terminate(on_terminate);
    if (!real_create)
    {
        real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    }
    configure_run();
    thread* t;
    {
        rt_guard g;
        g_cur = nullptr;
        t     = new_thread(scenario_main, nullptr);
    }
    g_cur    = t;
    g_active = true;
    unpark(t);
    for (;;)
    {
        int z = 0;
        futex_wait_raw(&z, 0);
    }
}

static void parse_replay(const char* path, char* scen, uint64_t& seed)
{
    FILE* f = fopen(path, "r");
    if (!f)
    {
        fprintf(stderr, "cannot open replay file %s\n", path);
        exit(64);
    }
    char line[512];
    while (fgets(line, sizeof line, f))
    {
        char      n[64];
        long long a, b, c, d;
        unsigned long long u;
        int                t, to;
        if (sscanf(line, "scenario %60s", n) == 1)
        {
            strcpy(scen, n);
        }
        else if (!strncmp(line, "resample", 8))
        {
            g_sampling = true;
        }
        else if (sscanf(line, "seed %llu", &u) == 1)
        {
            seed = u;
        }
        else if (sscanf(line, "presim %llu", &u) == 1)
        {
            g_presim = u;
        }
        else if (sscanf(line, "param %39s %lld %lld %lld %lld", n, &a, &b, &c, &d) >= 3)
        {
            named_ent e{};
            snprintf(e.name, sizeof e.name, "%.39s", n);
            e.n     = a;
            e.value = b;
            g_in_params.push(e);
        }
        else if (sscanf(line, "fault %39s %lld %lld", n, &a, &b) == 3)
        {
            named_ent e{};
            snprintf(e.name, sizeof e.name, "%.39s", n);
            e.n     = a;
            e.value = b;
            g_in_faults.push(e);
        }
        else if (sscanf(line, "sched %d %llu %d", &t, &u, &to) == 3)
        {
            g_in_sched.push({t, u, to});
        }
    }
    fclose(f);
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        const auto c = (unsigned char)*s;
        if (c == '"' || c == '\\')
        {
            fprintf(f, "\\%c", c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            fprintf(f, "\\u%04x", c);
        }
        else
        {
            fputc(c, f);
        }
    }
    fputc('"', f);
}
static void print_result(FILE* f, const result& r, const char* scen, uint64_t seed)
{
    fprintf(f, "{\"scenario\":\"%s\",\"seed\":%llu,\"presim\":%llu,\"status\":%d,\"cls\":\"%s\",\"key\":", scen,
            (unsigned long long)seed, (unsigned long long)g_presim, (int)r.status, r.cls);
    json_str(f, r.key);
    fprintf(f, ",\"msg\":");
    json_str(f, r.msg);
    fprintf(f, ",\"desc\":");
    json_str(f, r.desc);
    fprintf(f, ",\"hash\":\"%016llx\",\"ihash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"threads\":%u,\"bt\":[",
            (unsigned long long)r.hash, (unsigned long long)r.ihash, (unsigned long long)r.steps,
            (unsigned long long)r.switches, r.threads);
    for (int i = 0; i < r.nbt; ++i)
    {
        fprintf(f, "%s\"%#llx\"", i ? "," : "", (unsigned long long)r.bt[i]);
    }
    fprintf(f, "]}\n");
    fflush(f);
}

static char g_tmpdir[128];
static void clean_dir()
{
    if (DIR* d = opendir(g_tmpdir))
    {
        while (dirent* e = readdir(d))
        {
            if (e->d_name[0] == '.')
            {
                continue;
            }
            char p[400];
            snprintf(p, sizeof p, "%s/%s", g_tmpdir, e->d_name);
            unlink(p);
        }
        closedir(d);
    }
}

static void spawn(const sim::scen& s, uint64_t seed, double cpu)
{
    memset((void*)g_res, 0, sizeof *g_res);
    const pid_t p = fork();
    if (p == 0)
    {
        raw(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL, 0, 0, 0);
        run_child(s, seed, cpu);
    }
    int w = 0;
    while (waitpid(p, &w, 0) < 0 && errno == EINTR)
    {
    }
    if (g_res->status == st::NONE)
    {
        g_res->status = st::VIOLATION;
        if (WIFSIGNALED(w) && WTERMSIG(w) == SIGKILL)
        {
            g_res->status = st::INTERNAL;
        }
        snprintf(g_res->cls, sizeof g_res->cls, "crash");
        snprintf(g_res->key, sizeof g_res->key, "exit-%d-%d", WIFSIGNALED(w) ? WTERMSIG(w) : 0,
                 WIFEXITED(w) ? WEXITSTATUS(w) : 0);
        snprintf(g_res->msg, sizeof g_res->msg, "the simulated process ended abnormally (wait status %#x)", w);
    }
}

int main(int argc, char** argv)
{
    ++g_in_rt;  // driver memory is not part of the simulated heap
    const char *only = nullptr, *replay = nullptr, *out = nullptr, *hashes = nullptr, *trace = nullptr;
    uint64_t    start = 1, count = 1, stride = 1, offset = 0;
    double      tlimit = 1e9, cpu = 120;
    int         maxviol = 3;
    bool        sample_all = false, resample = false;
    for (int i = 1; i < argc; ++i)
    {
        auto nxt = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (!strcmp(argv[i], "--scenario")) only = nxt();
        else if (!strcmp(argv[i], "--start")) start = strtoull(nxt(), nullptr, 10);
        else if (!strcmp(argv[i], "--offset")) offset = strtoull(nxt(), nullptr, 10);
        else if (!strcmp(argv[i], "--count")) count = strtoull(nxt(), nullptr, 10);
        else if (!strcmp(argv[i], "--stride")) stride = strtoull(nxt(), nullptr, 10);
        else if (!strcmp(argv[i], "--time")) tlimit = atof(nxt());
        else if (!strcmp(argv[i], "--cpu")) cpu = atof(nxt());
        else if (!strcmp(argv[i], "--presim")) g_presim = strtoull(nxt(), nullptr, 10);
        else if (!strcmp(argv[i], "--out")) out = nxt();
        else if (!strcmp(argv[i], "--hashes")) hashes = nxt();
        else if (!strcmp(argv[i], "--replay")) replay = nxt();
        else if (!strcmp(argv[i], "--resample")) resample = true;
        else if (!strcmp(argv[i], "--trace")) trace = nxt();
        else if (!strcmp(argv[i], "--maxviol")) maxviol = atoi(nxt());
        else if (!strcmp(argv[i], "--verbose")) sample_all = true;
        else if (!strcmp(argv[i], "--tmp")) snprintf(g_tmpdir, sizeof g_tmpdir, "%s", nxt());
        else if (!strcmp(argv[i], "--list"))
        {
            for (int k = 0; k < sim::g_nscen; ++k)
            {
                printf("%s %d\n", sim::g_scen[k].name, sim::g_scen[k].weight);
            }
            return 0;
        }
    }
    if (!g_tmpdir[0])
    {
        snprintf(g_tmpdir, sizeof g_tmpdir, "/tmp/sim.%d", (int)getpid());
        mkdir(g_tmpdir, 0700);
    }
    else
    {
        mkdir(g_tmpdir, 0700);
    }
    // the name the simulated process sees must be the same in every process: a fixed-length relative path
    if (chdir(g_tmpdir) != 0)
    {
        return 65;
    }
    snprintf(d_dir, sizeof d_dir, "simdisk.");
    g_res = (result*)mmap(nullptr, sizeof(result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    {
        void* b[4];
        backtrace(b, 4);  // load libgcc now
    }
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    FILE* fo = out ? fopen(out, "w") : stdout;
    setvbuf(fo, nullptr, _IOFBF, 1 << 16);
    g_trace_out = trace;

    if (replay)
    {
        char     sn[64] = "";
        uint64_t seed   = 1;
        g_replay        = true;
        g_sampling      = resample;
        parse_replay(replay, sn, seed);
        for (int k = 0; k < sim::g_nscen; ++k)
        {
            if (!strcmp(sim::g_scen[k].name, sn))
            {
                --g_in_rt;
                spawn(sim::g_scen[k], seed, cpu);
                ++g_in_rt;
                print_result(fo, *g_res, sn, seed);
                clean_dir();
                rmdir(g_tmpdir);
                if (chdir("/") == 0)
                {
                    rmdir(g_tmpdir);
                }
                return g_res->status == st::VIOLATION ? 1 : g_res->status == st::INTERNAL ? 2 : 0;
            }
        }
        fprintf(stderr, "unknown scenario in replay file\n");
        return 64;
    }

    int wsum = 0;
    for (int k = 0; k < sim::g_nscen; ++k)
    {
        if (!only || !strcmp(only, sim::g_scen[k].name))
        {
            wsum += sim::g_scen[k].weight;
        }
    }
    if (!wsum)
    {
        return 66;
    }
    FILE*        fh = hashes ? fopen(hashes, "wb") : nullptr;
    const double t0 = real_time();
    // aggregated
    struct agg
    {
        char    name[40];
        int64_t n, runs;
    };
    static agg ag[400];
    int        nag = 0, nviol = 0, nsamples = 0;
    uint64_t   runs = 0, ok = 0, disc = 0, nontriv = 0, steps = 0, sw = 0, simns = 0, internal = 0;
    for (uint64_t i = offset; i < count; i += stride)
    {
        if (real_time() - t0 > tlimit)
        {
            break;
        }
        const uint64_t seed = start + i;
        int            k = 0, x = (int)(mix(seed ^ 0x5ce) % (uint64_t)wsum);
        for (; k < sim::g_nscen; ++k)
        {
            if (only && strcmp(only, sim::g_scen[k].name))
            {
                continue;
            }
            if (x < sim::g_scen[k].weight)
            {
                break;
            }
            x -= sim::g_scen[k].weight;
        }
        fflush(nullptr);
        --g_in_rt;
        spawn(sim::g_scen[k], seed, cpu);
        ++g_in_rt;
        ++runs;
        const result& r = *g_res;
        steps += r.steps;
        sw += r.switches;
        simns += r.sim_ns;
        if (r.status == st::OK)
        {
            ++ok;
        }
        if (r.status == st::DISCARD)
        {
            ++disc;
        }
        if (r.nontrivial)
        {
            ++nontriv;
        }
        for (int c = 0; c < r.ncounters; ++c)
        {
            int j = 0;
            for (; j < nag; ++j)
            {
                if (!strcmp(ag[j].name, r.counters[c].name))
                {
                    break;
                }
            }
            if (j == nag && nag < 400)
            {
                strcpy(ag[nag++].name, r.counters[c].name);
            }
            if (j < 400)
            {
                ag[j].n += r.counters[c].n;
                ag[j].runs += 1;
            }
        }
        if (fh)
        {
            const uint64_t rec[5] = {seed, r.hash, r.ihash, (uint64_t)r.nontrivial, (uint64_t)k};
            fwrite(rec, sizeof rec, 1, fh);
        }
        const bool viol = r.status == st::VIOLATION || r.status == st::INTERNAL;
        if (r.status == st::INTERNAL)
        {
            ++internal;
        }
        if (viol || sample_all || (nsamples < 2 && r.nontrivial))
        {
            nsamples += !viol;
            fprintf(fo, "%s ", viol ? "VIOL" : "SAMPLE");
            print_result(fo, r, sim::g_scen[k].name, seed);
        }
        if (viol && ++nviol >= maxviol)
        {
            break;
        }
        clean_dir();
    }
    fprintf(fo,
            "SUMMARY {\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,"
            "\"sim_ns\":%llu,\"internal\":%llu,\"wall\":%.3f,\"counters\":{",
            (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)disc, (unsigned long long)nontriv,
            (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)simns, (unsigned long long)internal,
            real_time() - t0);
    for (int j = 0; j < nag; ++j)
    {
        fprintf(fo, "%s\"%s\":[%lld,%lld]", j ? "," : "", ag[j].name, (long long)ag[j].n, (long long)ag[j].runs);
    }
    fprintf(fo, "}}\n");
    fclose(fo);
    if (fh)
    {
        fclose(fh);
    }
    clean_dir();
    if (chdir("/") == 0)
    {
        rmdir(g_tmpdir);
    }
    return nviol ? 1 : 0;
}
