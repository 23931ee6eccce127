// see vsched.h. Must be compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
    #define _GNU_SOURCE
#endif
#include "vsched.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

static inline long
raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static inline long
raw3(long n, long a = 0, long b = 0, long c = 0)
{
    return raw6(n, a, b, c, 0, 0, 0);
}
static inline long
ret_errno(long r)
{
    if (r < 0 && r > -4096) {
        errno = static_cast<int>(-r);
        return -1;
    }
    return r;
}

namespace vs {
__thread int t_nopoint = 0;
void (*on_idle)(long long) = nullptr;
namespace {

enum wait_t
{
    W_RUN,
    W_MUTEX,
    W_COND,
    W_SLEEP,
    W_JOIN,
    W_FUTEX,
    W_FD,
    W_PRED,
    W_IDLE,
    W_DONE
};

constexpr int kMaxThreads = 512;
constexpr int64_t kNever = INT64_MAX;

struct thread
{
    int id;
    int go; // baton futex
    wait_t w;
    const void* addr;
    int64_t deadline; // absolute virtual ns
    bool signalled;
    bool detached;
    bool joined;
    bool demoted;
    int64_t prio;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    int tsd_round;
    // W_FD
    pollfd* fds;
    int nfds;
    int fdready;
    // W_PRED
    bool (*pred)(void*);
    void* parg;
    // spin heuristics
    const void* sp_addr;
    uint64_t sp_val;
    int sp_cnt;
    int64_t run_len;
};

config g_cfg;
result* g_res = nullptr;
bool g_on = false;
thread g_thr[kMaxThreads];
int g_nthr = 0;
thread* g_cur = nullptr;
__thread thread* t_self = nullptr;
int64_t g_now = 0; // virtual ns
uint64_t g_rng = 88172645463325252ull;
int64_t g_steps = 0;
int64_t g_switches = 0;
int64_t g_accesses = 0;
int64_t g_fd_epoch = 1;
int64_t g_fd_checked = 0;
pthread_key_t g_key;
int64_t g_change[16];
int g_nchange = 0;
int64_t g_low_prio = 0;
bool g_in_fatal = false;

constexpr int64_t kBase = 1000000000ll * 1000000; // 1e6 s

inline uint64_t
rnd()
{
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng * 2685821657736338717ull;
}
inline uint32_t
rnd(uint32_t n)
{
    return n ? static_cast<uint32_t>((rnd() >> 33) % n) : 0;
}
inline bool
chance_pm(int pm)
{
    return pm > 0 && static_cast<int>(rnd(1000)) < pm;
}

void
futex_wait(int* a, int v)
{
    raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
void
futex_wake(int* a)
{
    raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- arena
constexpr size_t kArena = size_t(1) << 29;
constexpr size_t kGran = 16;
char* g_arena = nullptr;
char* g_arena_end = nullptr;
char* g_ptr = nullptr;
unsigned char* g_shadow = nullptr; // 0 unknown 1 live 2 freed

void
arena_init()
{
    g_arena = static_cast<char*>(mmap(nullptr,
                                      kArena,
                                      PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                      -1,
                                      0));
    if (g_arena == MAP_FAILED) {
        abort();
    }
    g_arena_end = g_arena + kArena;
    g_ptr = g_arena;
    g_shadow = static_cast<unsigned char*>(
      mmap(nullptr,
           kArena / kGran,
           PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
           -1,
           0));
}

// serialised by the baton; threads outside of the scheduler never allocate
// concurrently (a finished thread only runs libc code)
int g_arena_lock = 0;
void*
arena_alloc(size_t n, size_t align)
{
    while (__atomic_exchange_n(&g_arena_lock, 1, __ATOMIC_ACQUIRE)) {
    }
    if (!g_arena) {
        arena_init();
    }
    if (align < kGran) {
        align = kGran;
    }
    uintptr_t p = reinterpret_cast<uintptr_t>(g_ptr) + kGran; // header
    p = (p + align - 1) & ~(uintptr_t(align) - 1);
    const size_t len = (n + kGran - 1) & ~(kGran - 1);
    void* ret = nullptr;
    if (p + len + kGran < reinterpret_cast<uintptr_t>(g_arena_end)) {
        *reinterpret_cast<size_t*>(p - kGran) = len;
        g_ptr = reinterpret_cast<char*>(p + len + kGran); // + red zone
        memset(g_shadow + (p - reinterpret_cast<uintptr_t>(g_arena)) / kGran,
               1,
               len / kGran);
        ret = reinterpret_cast<void*>(p);
    }
    __atomic_store_n(&g_arena_lock, 0, __ATOMIC_RELEASE);
    return ret;
}

inline bool
in_arena(const void* p)
{
    return p >= g_arena && p < g_arena_end && g_arena;
}

void
arena_free(void* p)
{
    if (!p) {
        return;
    }
    if (!in_arena(p)) {
        free(p);
        return;
    }
    const size_t idx = (static_cast<char*>(p) - g_arena) / kGran;
    if (g_shadow[idx] != 1) {
        fatal("uaf", "double free");
    }
    const size_t len =
      *reinterpret_cast<size_t*>(static_cast<char*>(p) - kGran);
    memset(g_shadow + idx, 2, len / kGran);
    memset(p, 0xdd, len);
}

// ------------------------------------------------------------ scheduling

int
poll_now(pollfd* f, int n)
{
    return static_cast<int>(raw3(SYS_poll, (long)f, n, 0));
}

bool
fd_ready(thread* t)
{
    if (g_fd_checked != g_fd_epoch || t->fdready < 0) {
        int r = poll_now(t->fds, t->nfds);
        bool rdy = false;
        if (r > 0) {
            for (int i = 0; i < t->nfds; ++i) {
                // a descriptor closed while blocked does not wake the call
                if (t->fds[i].revents & ~POLLNVAL) {
                    rdy = true;
                }
            }
        }
        t->fdready = rdy ? 1 : 0;
    }
    return t->fdready > 0;
}

bool
enabled(thread* t)
{
    switch (t->w) {
        case W_RUN:
            return true;
        case W_MUTEX:
            return static_cast<const pthread_mutex_t*>(t->addr)->__data.__lock ==
                   0;
        case W_COND:
        case W_FUTEX:
            return t->signalled || t->deadline <= g_now;
        case W_SLEEP:
            return t->deadline <= g_now;
        case W_JOIN:
            return g_thr[reinterpret_cast<intptr_t>(t->addr)].w == W_DONE;
        case W_FD:
            return t->deadline <= g_now || fd_ready(t);
        case W_PRED:
        {
            ++t_nopoint;
            const bool r = t->pred(t->parg);
            --t_nopoint;
            return r;
        }
        case W_IDLE:
        case W_DONE:
            return false;
    }
    return false;
}

void
describe_block(char* buf, size_t n)
{
    size_t o = 0;
    buf[0] = 0;
    for (int i = 0; i < g_nthr && o + 16 < n; ++i) {
        if (g_thr[i].w != W_DONE) {
            o += snprintf(buf + o, n - o, "%d:%d ", i, g_thr[i].w);
        }
    }
}

thread*
pick(thread* self)
{
    thread* en[kMaxThreads];
    for (;;) {
        int n = 0;
        bool any_fd = false;
        for (int i = 0; i < g_nthr; ++i) {
            thread* t = &g_thr[i];
            if (t->w == W_FD) {
                any_fd = true;
            }
            if (t->w != W_DONE && enabled(t)) {
                en[n++] = t;
            }
        }
        if (any_fd) {
            g_fd_checked = g_fd_epoch;
        }
        if (n == 0) {
            int64_t next = kNever;
            thread* idle = nullptr;
            for (int i = 0; i < g_nthr; ++i) {
                thread* t = &g_thr[i];
                if (t->w == W_COND || t->w == W_FUTEX || t->w == W_SLEEP ||
                    t->w == W_FD || t->w == W_IDLE) {
                    if (t->deadline < next) {
                        next = t->deadline;
                    }
                }
                if (t->w == W_IDLE) {
                    idle = t;
                }
            }
            if (idle && idle->deadline <= g_now) {
                return idle;
            }
            if (next == kNever) {
                fatal("deadlock", "");
            }
            if (next > g_cfg.horizon_ms * 1000000) {
                fatal("horizon", "");
            }
            if (next > g_now) {
                if (on_idle) {
                    ++t_nopoint;
                    on_idle(next / 1000000);
                    --t_nopoint;
                }
                g_now = next;
            }
            continue;
        }
        if (n == 1) {
            return en[0];
        }
        switch (g_cfg.strategy) {
            case ST_PCT: {
                thread* best = en[0];
                for (int i = 1; i < n; ++i) {
                    if (en[i]->prio > best->prio) {
                        best = en[i];
                    }
                }
                return best;
            }
            default: {
                // prefer threads which have not been demoted
                int m = 0;
                thread* good[kMaxThreads];
                for (int i = 0; i < n; ++i) {
                    if (!en[i]->demoted) {
                        good[m++] = en[i];
                    }
                }
                (void)self;
                if (m) {
                    return good[rnd(m)];
                }
                for (int i = 0; i < n; ++i) {
                    en[i]->demoted = false;
                }
                return en[rnd(n)];
            }
        }
    }
}

void
hand_to(thread* next, bool wait)
{
    thread* self = t_self;
    if (next == self) {
        return;
    }
    ++g_switches;
    g_cur = next;
    next->run_len = 0;
    __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
    futex_wake(&next->go);
    if (wait) {
        while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) {
            futex_wait(&self->go, 0);
        }
        __atomic_store_n(&self->go, 0, __ATOMIC_RELAXED);
    }
}

void
count_step()
{
    if (++g_steps > g_cfg.max_steps) {
        fatal("livelock", "");
    }
}

// self is blocked with its wait fields set; returns when enabled and chosen
void
block()
{
    thread* self = t_self;
    count_step();
    thread* next = pick(self);
    hand_to(next, true);
    self->w = W_RUN;
}

void
try_jump()
{
    int64_t next = kNever;
    for (int i = 0; i < g_nthr; ++i) {
        thread* t = &g_thr[i];
        if ((t->w == W_COND || t->w == W_FUTEX || t->w == W_SLEEP ||
             t->w == W_FD) &&
            t->deadline > g_now && t->deadline < next) {
            next = t->deadline;
        }
        if (t->w == W_IDLE && t->deadline < next) {
            return;
        }
    }
    if (next != kNever && next < g_now + 3600ll * 1000000000) {
        g_now = next;
    }
}

void
do_point()
{
    thread* self = t_self;
    if (!g_on || !self || g_in_fatal || t_nopoint) {
        return;
    }
    count_step();
    if (g_cfg.jump_pm && chance_pm(g_cfg.jump_pm)) {
        try_jump();
    }
    ++self->run_len;
    bool sw = false;
    switch (g_cfg.strategy) {
        case ST_WALK:
            sw = rnd(g_cfg.param) == 0;
            break;
        case ST_PCT:
            for (int i = 0; i < g_nchange; ++i) {
                if (g_change[i] == g_steps) {
                    self->prio = --g_low_prio;
                    sw = true;
                }
            }
            if (self->run_len > 4000) {
                self->prio = --g_low_prio;
                self->run_len = 0;
                sw = true;
            }
            // somebody with a higher priority may have become enabled
            sw = true;
            break;
        case ST_SWEEP:
            if (g_steps == g_cfg.sweep) {
                self->demoted = true;
                sw = true;
            }
            // fall through
        default:
            if (self->run_len > 4000) {
                self->run_len = 0;
                self->demoted = true;
                sw = true;
            }
            break;
    }
    if (sw) {
        thread* next = pick(self);
        hand_to(next, true);
    }
}

void
yield_low()
{
    thread* self = t_self;
    if (!g_on || !self) {
        return;
    }
    count_step();
    if (g_cfg.strategy == ST_PCT) {
        self->prio = --g_low_prio;
    } else {
        self->demoted = true;
    }
    hand_to(pick(self), true);
}

thread*
new_thread()
{
    if (g_nthr >= kMaxThreads) {
        fatal("threads", "too many threads");
    }
    thread* t = &g_thr[g_nthr];
    memset(t, 0, sizeof(*t));
    t->id = g_nthr;
    t->w = W_RUN;
    t->prio = static_cast<int64_t>(rnd() >> 2);
    ++g_nthr;
    return t;
}

void
check_addr(const void* p, const char* what)
{
    if (in_arena(p)) {
        const size_t idx = (static_cast<const char*>(p) - g_arena) / kGran;
        if (g_shadow[idx] == 2) {
            fatal("uaf", what);
        }
    }
}

void
thread_done(void*)
{
    thread* self = t_self;
    if (!self || !g_on) {
        return;
    }
    if (self->tsd_round < 2) {
        ++self->tsd_round;
        pthread_setspecific(g_key, self);
        return;
    }
    self->w = W_DONE;
    thread* next = pick(self);
    t_self = nullptr;
    g_cur = next;
    ++g_switches;
    next->run_len = 0;
    __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
    futex_wake(&next->go);
}

void*
trampoline(void* p)
{
    thread* self = static_cast<thread*>(p);
    t_self = self;
    while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) {
        futex_wait(&self->go, 0);
    }
    __atomic_store_n(&self->go, 0, __ATOMIC_RELAXED);
    pthread_setspecific(g_key, self);
    self->ret = self->fn(self->arg);
    return self->ret;
}

void
on_signal(int s)
{
    if (s == SIGABRT) {
        fatal("abort", "");
    }
    fatal("signal", s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : "other");
}

void
on_cpu(int)
{
    fatal("livelock", "cpu");
}

} // namespace

// ---------------------------------------------------------------- control

void
start(const config& c, result* r)
{
    g_cfg = c;
    g_res = r;
    g_rng = c.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (!g_rng) {
        g_rng = 1;
    }
    for (int i = 0; i < 8; ++i) {
        rnd();
    }
    pthread_key_create(&g_key, thread_done);
    g_nthr = 0;
    t_self = new_thread();
    t_self->real = pthread_self();
    g_cur = t_self;
    g_now = 0;
    g_steps = 0;
    if (c.strategy == ST_PCT) {
        g_nchange = c.depth > 1 ? c.depth - 1 : 0;
        if (g_nchange > 16) {
            g_nchange = 16;
        }
        for (int i = 0; i < g_nchange; ++i) {
            g_change[i] = 1 + rnd(c.est_len > 1 ? c.est_len : 1);
        }
    }
    static char sig_stack[65536];
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = sig_stack;
    ss.ss_size = sizeof(sig_stack);
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_signal;
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sa.sa_handler = on_cpu;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval iv;
    memset(&iv, 0, sizeof(iv));
    iv.it_value.tv_sec = 30;
    setitimer(ITIMER_PROF, &iv, nullptr);
    g_on = true;
}

static void
store_counts()
{
    g_res->steps = g_steps;
    g_res->switches = g_switches;
    g_res->accesses = g_accesses;
    g_res->threads = g_nthr;
}

void
finish()
{
    store_counts();
    g_res->done = 1;
    raw3(SYS_exit_group, 0);
    __builtin_unreachable();
}

void
fatal(const char* what, const char* detail)
{
    if (!g_in_fatal && g_res) {
        g_in_fatal = true;
        emit("[\"fatal\",%d,%lld,\"%s\",\"%s\"]",
             t_self ? t_self->id : -1,
             static_cast<long long>(g_now / 1000000),
             what,
             detail);
        store_counts();
    }
    if (getenv("VS_BT")) {
        // debugging aid
        char b[512];
        describe_block(b, sizeof(b));
        dprintf(2, "fatal %s %s [%s]\n", what, detail, b);
        signal(SIGABRT, SIG_DFL);
        abort();
    }
    raw3(SYS_exit_group, 3);
    __builtin_unreachable();
}

int
tid()
{
    return t_self ? t_self->id : -1;
}
int64_t
now_ms()
{
    return g_now / 1000000;
}
void
point()
{
    do_point();
}
void
settle(int64_t ms)
{
    t_self->w = W_IDLE;
    t_self->deadline = g_now + ms * 1000000;
    block();
}
void
wait_pred(bool (*f)(void*), void* arg)
{
    do_point();
    while (!f(arg)) {
        t_self->w = W_PRED;
        t_self->pred = f;
        t_self->parg = arg;
        block();
    }
}
void
advance(int64_t ms)
{
    t_self->w = W_SLEEP;
    t_self->deadline = g_now + ms * 1000000;
    block();
}
void
emit(const char* fmt, ...)
{
    if (!g_res) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    const uint32_t room = g_res->cap - g_res->len;
    if (room > 512) {
        if (g_res->len) {
            g_res->text[g_res->len++] = ',';
        }
        int n = vsnprintf(g_res->text + g_res->len, room - 1, fmt, ap);
        g_res->len += n;
    }
    va_end(ap);
}
void
fd_dirty()
{
    ++g_fd_epoch;
}
bool
addr_freed(const void* p)
{
    return in_arena(p) &&
           g_shadow[(static_cast<const char*>(p) - g_arena) / kGran] == 2;
}
int
live_threads()
{
    int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        n += g_thr[i].w != W_DONE;
    }
    return n;
}

} // namespace vs

using namespace vs;

// ------------------------------------------------------------- allocation

void*
operator new(size_t n)
{
    void* p = arena_alloc(n, 16);
    return p ? p : malloc(n);
}
void*
operator new[](size_t n)
{
    return operator new(n);
}
void*
operator new(size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}
void*
operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}
void
operator delete(void* p) noexcept
{
    arena_free(p);
}
void
operator delete[](void* p) noexcept
{
    arena_free(p);
}
void
operator delete(void* p, size_t) noexcept
{
    arena_free(p);
}
void
operator delete[](void* p, size_t) noexcept
{
    arena_free(p);
}
void
operator delete(void* p, const std::nothrow_t&) noexcept
{
    arena_free(p);
}
void
operator delete[](void* p, const std::nothrow_t&) noexcept
{
    arena_free(p);
}
#if defined(__cpp_aligned_new)
void*
operator new(size_t n, std::align_val_t a)
{
    return arena_alloc(n, static_cast<size_t>(a));
}
void*
operator new[](size_t n, std::align_val_t a)
{
    return arena_alloc(n, static_cast<size_t>(a));
}
void
operator delete(void* p, std::align_val_t) noexcept
{
    arena_free(p);
}
void
operator delete[](void* p, std::align_val_t) noexcept
{
    arena_free(p);
}
void
operator delete(void* p, size_t, std::align_val_t) noexcept
{
    arena_free(p);
}
void
operator delete[](void* p, size_t, std::align_val_t) noexcept
{
    arena_free(p);
}
#endif

// --------------------------------------------------------------- pthreads

#define MANAGED (g_on && t_self)

EXPORT int
pthread_create(pthread_t* out,
               const pthread_attr_t* attr,
               void* (*fn)(void*),
               void* arg)
{
    using fn_t = int (*)(
      pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static fn_t real = reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "pthread_create"));
    if (!MANAGED) {
        return real(out, attr, fn, arg);
    }
    do_point();
    thread* t = new_thread();
    t->fn = fn;
    t->arg = arg;
    if (attr) {
        int st = 0;
        pthread_attr_getdetachstate(attr, &st);
        t->detached = st == PTHREAD_CREATE_DETACHED;
    }
    const int r = real(&t->real, attr, trampoline, t);
    if (r) {
        fatal("threads", "pthread_create failed");
    }
    *out = t->real;
    do_point();
    return 0;
}

EXPORT int
pthread_join(pthread_t h, void** ret)
{
    using fn_t = int (*)(pthread_t, void**);
    static fn_t real = reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "pthread_join"));
    if (!MANAGED) {
        return real(h, ret);
    }
    do_point();
    thread* t = nullptr;
    for (int i = g_nthr - 1; i >= 0; --i) {
        if (pthread_equal(g_thr[i].real, h) && !g_thr[i].joined &&
            !g_thr[i].detached) {
            t = &g_thr[i];
            break;
        }
    }
    if (!t) {
        return ESRCH;
    }
    if (t == t_self) {
        return EDEADLK;
    }
    while (t->w != W_DONE) {
        t_self->w = W_JOIN;
        t_self->addr = reinterpret_cast<void*>(static_cast<intptr_t>(t->id));
        block();
    }
    t->joined = true;
    real(h, nullptr);
    if (ret) {
        *ret = t->ret;
    }
    return 0;
}

EXPORT int
pthread_detach(pthread_t h)
{
    using fn_t = int (*)(pthread_t);
    static fn_t real = reinterpret_cast<fn_t>(dlsym(RTLD_NEXT, "pthread_detach"));
    if (MANAGED) {
        for (int i = g_nthr - 1; i >= 0; --i) {
            if (pthread_equal(g_thr[i].real, h) && !g_thr[i].joined &&
                !g_thr[i].detached) {
                g_thr[i].detached = true;
                break;
            }
        }
    }
    return real(h);
}

static inline int
my_id()
{
    return t_self ? t_self->id + 1 : 1;
}

static int
mutex_lock_impl(pthread_mutex_t* m, int64_t deadline, bool pt)
{
    check_addr(m, "mutex lock");
    if (pt) {
        do_point();
        check_addr(m, "mutex lock");
    }
    const int type = m->__data.__kind & 3;
    if (m->__data.__lock && m->__data.__owner == my_id()) {
        if (type == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++m->__data.__count;
            return 0;
        }
        if (type == PTHREAD_MUTEX_ERRORCHECK_NP) {
            return EDEADLK;
        }
    }
    while (m->__data.__lock) {
        if (!MANAGED) {
            abort();
        }
        if (deadline <= g_now) {
            return ETIMEDOUT;
        }
        t_self->w = W_MUTEX;
        t_self->addr = m;
        t_self->deadline = deadline;
        block();
        check_addr(m, "mutex lock");
    }
    m->__data.__lock = 1;
    m->__data.__owner = my_id();
    m->__data.__count = 1;
    return 0;
}

EXPORT int
pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof(*m));
    if (a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        m->__data.__kind = t;
    }
    return 0;
}
EXPORT int
pthread_mutex_destroy(pthread_mutex_t* m)
{
    check_addr(m, "mutex destroy");
    return 0;
}
EXPORT int
pthread_mutex_lock(pthread_mutex_t* m)
{
    return mutex_lock_impl(m, kNever, true);
}
EXPORT int
pthread_mutex_trylock(pthread_mutex_t* m)
{
    check_addr(m, "mutex trylock");
    do_point();
    check_addr(m, "mutex trylock");
    if (m->__data.__lock) {
        if (m->__data.__owner == my_id() &&
            (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++m->__data.__count;
            return 0;
        }
        return EBUSY;
    }
    m->__data.__lock = 1;
    m->__data.__owner = my_id();
    m->__data.__count = 1;
    return 0;
}
static int64_t
abs_to_ns(const struct timespec* ts)
{
    // virtual clocks start at kBase
    const __int128 v =
      static_cast<__int128>(ts->tv_sec) * 1000000000 + ts->tv_nsec - kBase;
    if (v < 0) {
        return 0;
    }
    if (v > kNever - 1) {
        return kNever - 1;
    }
    return static_cast<int64_t>(v);
}
EXPORT int
pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    return mutex_lock_impl(m, abs_to_ns(ts), true);
}
EXPORT int
pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    return mutex_lock_impl(m, abs_to_ns(ts), true);
}
EXPORT int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    check_addr(m, "mutex unlock");
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP &&
        --m->__data.__count > 0) {
        return 0;
    }
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    do_point();
    return 0;
}

EXPORT int
pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof(*c));
    return 0;
}
EXPORT int
pthread_cond_destroy(pthread_cond_t* c)
{
    check_addr(c, "cond destroy");
    return 0;
}
static int
cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    check_addr(c, "cond wait");
    if (!MANAGED) {
        abort();
    }
    do_point();
    check_addr(c, "cond wait");
    const auto save = m->__data.__count;
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    thread* self = t_self;
    int r = 0;
    if (!chance_pm(g_cfg.spurious_pm)) {
        self->w = W_COND;
        self->addr = c;
        self->deadline = deadline;
        self->signalled = false;
        block();
        r = self->signalled ? 0 : ETIMEDOUT;
        self->signalled = false;
    } else {
        do_point();
    }
    mutex_lock_impl(m, kNever, false);
    m->__data.__count = save;
    return r;
}
EXPORT int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return cond_wait_impl(c, m, kNever);
}
EXPORT int
pthread_cond_timedwait(pthread_cond_t* c,
                       pthread_mutex_t* m,
                       const struct timespec* ts)
{
    return cond_wait_impl(c, m, abs_to_ns(ts));
}
EXPORT int
pthread_cond_clockwait(pthread_cond_t* c,
                       pthread_mutex_t* m,
                       clockid_t,
                       const struct timespec* ts)
{
    return cond_wait_impl(c, m, abs_to_ns(ts));
}
static int
cond_wake(pthread_cond_t* c, bool all)
{
    check_addr(c, "cond signal");
    if (!MANAGED) {
        return 0;
    }
    do_point();
    check_addr(c, "cond signal");
    thread* w[kMaxThreads];
    int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i].w == W_COND && g_thr[i].addr == c && !g_thr[i].signalled &&
            g_thr[i].deadline > g_now) {
            w[n++] = &g_thr[i];
        }
    }
    if (n == 0) {
        return 0;
    }
    if (all) {
        for (int i = 0; i < n; ++i) {
            w[i]->signalled = true;
        }
    } else {
        w[rnd(n)]->signalled = true;
    }
    return 0;
}
EXPORT int
pthread_cond_signal(pthread_cond_t* c)
{
    return cond_wake(c, false);
}
EXPORT int
pthread_cond_broadcast(pthread_cond_t* c)
{
    return cond_wake(c, true);
}

struct once_arg
{
    pthread_once_t* o;
};
EXPORT int
pthread_once(pthread_once_t* o, void (*fn)())
{
    volatile int* v = reinterpret_cast<volatile int*>(o);
    do_point();
    if (*v == 2) {
        return 0;
    }
    if (*v == 0) {
        *v = 1;
        fn();
        *v = 2;
        return 0;
    }
    if (!MANAGED) {
        abort();
    }
    wait_pred(
      [](void* a) { return *static_cast<volatile int*>(a) == 2; },
      const_cast<int*>(v));
    return 0;
}

EXPORT int
sched_yield()
{
    yield_low();
    return 0;
}

// rwlocks: __readers in __data.__readers, writer flag in __data.__writers
EXPORT int
pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    do_point();
    if (l->__data.__writers) {
        if (!MANAGED) {
            abort();
        }
        wait_pred(
          [](void* a) {
              return !static_cast<pthread_rwlock_t*>(a)->__data.__writers;
          },
          l);
    }
    ++l->__data.__readers;
    return 0;
}
EXPORT int
pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    do_point();
    if (l->__data.__writers || l->__data.__readers) {
        if (!MANAGED) {
            abort();
        }
        wait_pred(
          [](void* a) {
              auto* r = static_cast<pthread_rwlock_t*>(a);
              return !r->__data.__writers && !r->__data.__readers;
          },
          l);
    }
    l->__data.__writers = 1;
    return 0;
}
EXPORT int
pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (l->__data.__writers) {
        l->__data.__writers = 0;
    } else {
        --l->__data.__readers;
    }
    do_point();
    return 0;
}

// ------------------------------------------------------------------- time

static void
to_ts(int64_t ns, struct timespec* ts)
{
    ns += kBase;
    ts->tv_sec = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
}
EXPORT int
clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!MANAGED || id == CLOCK_PROCESS_CPUTIME_ID ||
        id == CLOCK_THREAD_CPUTIME_ID) {
        return static_cast<int>(ret_errno(raw3(SYS_clock_gettime, id, (long)ts)));
    }
    to_ts(g_now, ts);
    return 0;
}
EXPORT int
gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t
time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}
static int
sleep_until_ns(int64_t d)
{
    do_point();
    if (d > g_now) {
        t_self->w = W_SLEEP;
        t_self->deadline = d;
        block();
    }
    return 0;
}
static int64_t
rel_ns(const struct timespec* ts)
{
    const __int128 v =
      static_cast<__int128>(ts->tv_sec) * 1000000000 + ts->tv_nsec + g_now;
    return v > kNever - 1 ? kNever - 1 : static_cast<int64_t>(v);
}
EXPORT int
nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (!MANAGED) {
        return static_cast<int>(
          ret_errno(raw3(SYS_nanosleep, (long)rq, (long)rm)));
    }
    if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec > 999999999) {
        errno = EINVAL;
        return -1;
    }
    return sleep_until_ns(rel_ns(rq));
}
EXPORT int
clock_nanosleep(clockid_t,
                int flags,
                const struct timespec* rq,
                struct timespec* rm)
{
    if (!MANAGED) {
        return nanosleep(rq, rm);
    }
    if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999) {
        return EINVAL;
    }
    return sleep_until_ns((flags & TIMER_ABSTIME) ? abs_to_ns(rq) : rel_ns(rq));
}
EXPORT int
usleep(useconds_t us)
{
    struct timespec ts = { static_cast<time_t>(us / 1000000),
                           static_cast<long>(us % 1000000) * 1000 };
    return nanosleep(&ts, nullptr);
}
EXPORT unsigned
sleep(unsigned s)
{
    struct timespec ts = { static_cast<time_t>(s), 0 };
    nanosleep(&ts, nullptr);
    return 0;
}

// ------------------------------------------------------------------ files

static int
poll_impl(pollfd* f, int n, int64_t deadline)
{
    do_point();
    int r = poll_now(f, n);
    if (r != 0 || deadline <= g_now) {
        return static_cast<int>(ret_errno(r));
    }
    if (!MANAGED) {
        abort();
    }
    pollfd copy[64];
    if (n > 64) {
        n = 64;
    }
    memcpy(copy, f, sizeof(pollfd) * n);
    t_self->w = W_FD;
    t_self->fds = copy;
    t_self->nfds = n;
    t_self->fdready = -1;
    t_self->deadline = deadline;
    block();
    r = poll_now(f, n);
    return static_cast<int>(ret_errno(r));
}
static int64_t
ms_deadline(int64_t ms)
{
    return ms < 0 ? kNever : g_now + ms * 1000000;
}
EXPORT int
poll(pollfd* f, nfds_t n, int ms)
{
    if (!MANAGED) {
        return static_cast<int>(ret_errno(raw3(SYS_poll, (long)f, n, ms)));
    }
    return poll_impl(f, static_cast<int>(n), ms_deadline(ms));
}
EXPORT int
ppoll(pollfd* f, nfds_t n, const struct timespec* ts, const sigset_t*)
{
    if (!MANAGED) {
        return static_cast<int>(ret_errno(raw3(
          SYS_poll, (long)f, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1)));
    }
    return poll_impl(f, static_cast<int>(n), ts ? rel_ns(ts) : kNever);
}
static int
select_now(int nfds, fd_set* r, fd_set* w, fd_set* e)
{
    struct timeval z = { 0, 0 };
    return static_cast<int>(
      raw6(SYS_select, nfds, (long)r, (long)w, (long)e, (long)&z, 0));
}
EXPORT int
select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
    if (!MANAGED) {
        return static_cast<int>(ret_errno(
          raw6(SYS_select, nfds, (long)r, (long)w, (long)e, (long)tv, 0)));
    }
    do_point();
    fd_set r0, w0, e0;
    FD_ZERO(&r0);
    FD_ZERO(&w0);
    FD_ZERO(&e0);
    if (r) {
        r0 = *r;
    }
    if (w) {
        w0 = *w;
    }
    if (e) {
        e0 = *e;
    }
    int64_t deadline = kNever;
    if (tv) {
        deadline = g_now + tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll;
    }
    int ret = select_now(nfds, r, w, e);
    if (ret != 0 || deadline <= g_now) {
        return static_cast<int>(ret_errno(ret));
    }
    pollfd f[64];
    int n = 0;
    for (int i = 0; i < nfds && n < 64; ++i) {
        short ev = 0;
        if (r && FD_ISSET(i, &r0)) {
            ev |= POLLIN;
        }
        if (w && FD_ISSET(i, &w0)) {
            ev |= POLLOUT;
        }
        if (e && FD_ISSET(i, &e0)) {
            ev |= POLLPRI;
        }
        if (ev) {
            f[n].fd = i;
            f[n].events = ev;
            f[n].revents = 0;
            ++n;
        }
    }
    t_self->w = W_FD;
    t_self->fds = f;
    t_self->nfds = n;
    t_self->fdready = -1;
    t_self->deadline = deadline;
    block();
    if (r) {
        *r = r0;
    }
    if (w) {
        *w = w0;
    }
    if (e) {
        *e = e0;
    }
    ret = select_now(nfds, r, w, e);
    return static_cast<int>(ret_errno(ret));
}
EXPORT ssize_t
write(int fd, const void* b, size_t n)
{
    ++g_fd_epoch;
    return ret_errno(raw3(SYS_write, fd, (long)b, (long)n));
}
EXPORT ssize_t
read(int fd, void* b, size_t n)
{
    ++g_fd_epoch;
    return ret_errno(raw3(SYS_read, fd, (long)b, (long)n));
}
EXPORT int
eventfd_write(int fd, uint64_t v)
{
    ++g_fd_epoch;
    return raw3(SYS_write, fd, (long)&v, sizeof(v)) == sizeof(v) ? 0 : -1;
}
EXPORT int
eventfd_read(int fd, uint64_t* v)
{
    ++g_fd_epoch;
    return raw3(SYS_read, fd, (long)v, sizeof(*v)) == sizeof(*v) ? 0 : -1;
}
EXPORT int
close(int fd)
{
    ++g_fd_epoch;
    return static_cast<int>(ret_errno(raw3(SYS_close, fd)));
}

// ------------------------------------------------------------------ futex

EXPORT long
syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) {
        x = va_arg(ap, long);
    }
    va_end(ap);
    if (n == SYS_clock_gettime) {
        return clock_gettime(static_cast<clockid_t>(a[0]),
                             reinterpret_cast<struct timespec*>(a[1]));
    }
    if (n == SYS_futex && MANAGED) {
        const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
        int* addr = reinterpret_cast<int*>(a[0]);
        const auto* ts = reinterpret_cast<const struct timespec*>(a[3]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            do_point();
            if (*reinterpret_cast<volatile int*>(addr) !=
                static_cast<int>(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            int64_t d = kNever;
            if (ts) {
                d = op == FUTEX_WAIT ? rel_ns(ts) : abs_to_ns(ts);
            }
            t_self->w = W_FUTEX;
            t_self->addr = addr;
            t_self->deadline = d;
            t_self->signalled = false;
            block();
            const bool s = t_self->signalled;
            t_self->signalled = false;
            if (!s) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ||
            op == FUTEX_WAKE_OP) {
            do_point();
            long cnt = 0;
            for (int i = 0; i < g_nthr && cnt < a[2]; ++i) {
                if (g_thr[i].w == W_FUTEX && g_thr[i].addr == addr &&
                    !g_thr[i].signalled) {
                    g_thr[i].signalled = true;
                    ++cnt;
                }
            }
            if (op == FUTEX_WAKE_OP) {
                int* addr2 = reinterpret_cast<int*>(a[4]);
                const int enc = static_cast<int>(a[5]);
                const int o = (enc >> 28) & 7;
                const int c = (enc >> 24) & 15;
                int oparg = (enc << 8) >> 20;
                const int cmparg = (enc << 20) >> 20;
                if ((enc >> 28) & 8) {
                    oparg = 1 << oparg;
                }
                const int old = *addr2;
                switch (o) {
                    case 0:
                        *addr2 = oparg;
                        break;
                    case 1:
                        *addr2 += oparg;
                        break;
                    case 2:
                        *addr2 |= oparg;
                        break;
                    case 3:
                        *addr2 &= ~oparg;
                        break;
                    case 4:
                        *addr2 ^= oparg;
                        break;
                }
                bool yes = false;
                switch (c) {
                    case 0:
                        yes = old == cmparg;
                        break;
                    case 1:
                        yes = old != cmparg;
                        break;
                    case 2:
                        yes = old < cmparg;
                        break;
                    case 3:
                        yes = old <= cmparg;
                        break;
                    case 4:
                        yes = old > cmparg;
                        break;
                    case 5:
                        yes = old >= cmparg;
                        break;
                }
                if (yes) {
                    const long lim = a[3];
                    long c2 = 0;
                    for (int i = 0; i < g_nthr && c2 < lim; ++i) {
                        if (g_thr[i].w == W_FUTEX && g_thr[i].addr == addr2 &&
                            !g_thr[i].signalled) {
                            g_thr[i].signalled = true;
                            ++c2;
                        }
                    }
                    cnt += c2;
                }
            }
            return cnt;
        }
    }
    return ret_errno(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ------------------------------------------------------------------- tsan

static inline void
plain_access(const void* p)
{
    if (!g_on || !t_self) {
        return;
    }
    ++g_accesses;
    if ((g_accesses & 15) == 0) {
        count_step();
    }
    check_addr(p, "access");
    if (g_cfg.plain && rnd(g_cfg.plain) == 0) {
        do_point();
        check_addr(p, "access");
    }
}

#define PLAIN(n)                                                               \
    EXPORT void __tsan_read##n(void* p) { plain_access(p); }                   \
    EXPORT void __tsan_write##n(void* p) { plain_access(p); }                  \
    EXPORT void __tsan_unaligned_read##n(void* p) { plain_access(p); }         \
    EXPORT void __tsan_unaligned_write##n(void* p) { plain_access(p); }        \
    EXPORT void __tsan_volatile_read##n(void* p) { plain_access(p); }          \
    EXPORT void __tsan_volatile_write##n(void* p) { plain_access(p); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
EXPORT void __tsan_init() {}
EXPORT void
__tsan_func_entry(void*)
{}
EXPORT void
__tsan_func_exit()
{}
EXPORT void
__tsan_vptr_update(void** p, void*)
{
    plain_access(p);
}
EXPORT void
__tsan_vptr_read(void** p)
{
    plain_access(p);
}
EXPORT void
__tsan_read_range(void* p, size_t)
{
    plain_access(p);
}
EXPORT void
__tsan_write_range(void* p, size_t)
{
    plain_access(p);
}

static inline void
apoint(const volatile void* p)
{
    if (!g_on || !t_self) {
        return;
    }
    check_addr(const_cast<const void*>(p), "atomic");
    t_self->sp_addr = nullptr;
    do_point();
    check_addr(const_cast<const void*>(p), "atomic");
}

static inline void
load_point(const volatile void* p, uint64_t v)
{
    if (!g_on || !t_self) {
        return;
    }
    check_addr(const_cast<const void*>(p), "atomic");
    // a load repeated with the same result is most likely spinning: rarely
    // a scheduling point
    if (t_self->sp_addr == p && t_self->sp_val == v) {
        if (++t_self->sp_cnt > 3 && rnd(64) != 0) {
            count_step();
            return;
        }
    } else {
        t_self->sp_addr = const_cast<const void*>(p);
        t_self->sp_val = v;
        t_self->sp_cnt = 0;
    }
    do_point();
    check_addr(const_cast<const void*>(p), "atomic");
}

#define ATOMICS(bits, T)                                                       \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int)              \
    {                                                                          \
        load_point(a, (uint64_t)*a);                                           \
        return *a;                                                             \
    }                                                                          \
    EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int)           \
    {                                                                          \
        apoint(a);                                                             \
        *a = v;                                                                \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int)           \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = v;                                                                \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int)          \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = o + v;                                                            \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int)          \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = o - v;                                                            \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int)          \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = o & v;                                                            \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int)           \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = o | v;                                                            \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int)          \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = o ^ v;                                                            \
        return o;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int)         \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        *a = ~(o & v);                                                         \
        return o;                                                              \
    }                                                                          \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(                  \
      volatile T* a, T* c, T v, int, int)                                      \
    {                                                                          \
        apoint(a);                                                             \
        if (*a == *c) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(                    \
      volatile T* a, T* c, T v, int, int)                                      \
    {                                                                          \
        apoint(a);                                                             \
        if (*a == *c) {                                                        \
            if (g_on && chance_pm(g_cfg.weak_pm)) {                            \
                return 0;                                                      \
            }                                                                  \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(                       \
      volatile T* a, T c, T v, int, int)                                       \
    {                                                                          \
        apoint(a);                                                             \
        T o = *a;                                                              \
        if (o == c) {                                                          \
            *a = v;                                                            \
        }                                                                      \
        return o;                                                              \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)
EXPORT void
__tsan_atomic_thread_fence(int)
{
    do_point();
}
EXPORT void
__tsan_atomic_signal_fence(int)
{}
