// Deterministic cooperative scheduler with virtual time.
//
// All threads of the process are serialised: exactly one holds the "baton".
// pthread/futex/sleep/clock/select/poll entry points are interposed (defined in
// the executable, hence preferred over libc by every shared library), and the
// code under test is compiled with -fsanitize=thread but linked against the
// __tsan_* functions of this runtime, so that every atomic access is a
// scheduling point and every plain access is checked against freed memory.
#pragma once
#include <cstdint>
#include <cstddef>

namespace vs {

enum strategy_t
{
    ST_BLOCK = 0, // run to block, random choice whenever a thread blocks
    ST_WALK = 1,  // random walk: switch with probability 1/param at each point
    ST_PCT = 2,   // PCT with `depth` priority change points
    ST_SWEEP = 3, // run to block, one forced preemption at point `sweep`
};

struct config
{
    uint64_t seed = 1;
    int strategy = ST_BLOCK;
    int param = 8;       // ST_WALK: 1/p
    int depth = 3;       // ST_PCT
    int est_len = 2000;  // ST_PCT: estimated number of points
    int sweep = 0;       // ST_SWEEP
    int plain = 0;       // plain accesses are points with probability 1/plain
    int weak_pm = 0;     // spurious failures of weak CAS, per mille
    int spurious_pm = 0; // spurious wake-ups of condition variables, per mille
    int jump_pm = 0;     // virtual time jumps although threads are runnable
    int64_t max_steps = 3000000;
    int64_t horizon_ms = 2000000;
};

// shared result area (MAP_SHARED), filled by the child
struct result
{
    int64_t steps;     // scheduling points passed
    int64_t switches;
    int64_t accesses;  // plain accesses checked
    int32_t threads;
    int32_t done;      // finished regularly
    uint32_t len;      // bytes used in text
    uint32_t cap;
    char text[1];
};

void start(const config& c, result* r); // calling thread becomes thread 0
[[noreturn]] void finish();             // ends the process, trace complete
int tid();
int64_t now_ms();
void point();                           // explicit scheduling point
void settle(int64_t ms); // returns when all others are idle until now+ms
void wait_pred(bool (*f)(void*), void* arg); // block until f(arg)
void advance(int64_t ms); // sleep
void emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// the event is logged as the last one and the run is over (crash, uaf, ...)
[[noreturn]] void fatal(const char* what, const char* detail);
void fd_dirty();
bool addr_freed(const void* p);
int live_threads();
// per-thread user tag, e.g. to mark the thread inside exec()
} // namespace vs
namespace vs {
// no scheduling points while an instance lives (harness bookkeeping)
extern __thread int t_nopoint;
// (the compiler inserts the hooks late and would drop what contains no calls)
inline void
quiet_begin()
{
    ++t_nopoint;
    asm volatile("" ::: "memory");
}
inline void
quiet_end()
{
    asm volatile("" ::: "memory");
    --t_nopoint;
}
struct quiet_scope
{
    quiet_scope() { quiet_begin(); }
    ~quiet_scope() { quiet_end(); }
};
// invoked (under the baton) when nothing is enabled and time is about to pass
extern void (*on_idle)(long long next_ms);
} // namespace vs
