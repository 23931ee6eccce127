// Interpreter of test programs over the public API of xdispatch2, running under
// the vsched runtime. One process image explores many schedules of many
// programs: a single threaded zygote forks a child per schedule.
//
// usage: interp PROGRAMS OUT  (see parse() for the language, main() for the
// schedule directives)
#include "../runtime/vsched.h"

#include "xdispatch/dispatch.h"
#include "xdispatch/backend_naive.h"
#include "xdispatch/barrier_operation.h"
#include "xdispatch/signals.h"
#include "xdispatch/signals_barrier.h"
#include "xdispatch/waitable_queue.h"
#include "xdispatch/impl/ibackend.h"
#include "xdispatch/impl/igroup_impl.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/impl/isocket_notifier_impl.h"
#include "xdispatch/impl/itimer_impl.h"
#ifdef WITH_QT
    #define QT_NO_KEYWORDS
    #include "xdispatch/backend_qt.h"
    #include <QtCore/QCoreApplication>
    #include <QtCore/QObject>
#endif

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace xd = xdispatch;
using std::chrono::milliseconds;
using xd::queue_priority;

// ------------------------------------------------------------------ program

struct stmt
{
    std::string f;
    int a[6] = { 0, 0, 0, 0, 0, 0 };
    int at = 0; // only on this invocation of the enclosing op (0 = always)
};
using body_t = std::vector<stmt>;

struct queue_decl
{
    std::string kind;
    int prio = 3;
    int arg = -1; // pool, inner queue
};

struct program
{
    std::string name;
    int threads = 1;
    int settle = 100000;
    int settle2 = 100000;
    int gates = 16;
    int jump_ok = 1;
    std::map<int, queue_decl> queues;
    std::map<int, int> pools; // id -> workers
    std::map<int, int> pool_extra;
    std::map<int, std::pair<int, int>> signals; // id -> kind, group
    std::map<int, int> socks; // id -> prefill
    std::map<int, int> groups; // id -> backend type
    std::set<int> managers;
    int qapp = 0;
    std::map<int, int> qthreads; // id -> started
    std::map<int, int> qpools;   // id -> threads
    std::map<int, body_t> ops;
    std::map<int, body_t> threads_;
    body_t init;
    body_t final;
};

static program* P = nullptr;
static bool g_jump = false;

static queue_priority
prio(int p)
{
    switch (p) {
        case 0:
            return queue_priority::USER_INTERACTIVE;
        case 1:
            return queue_priority::USER_INITIATED;
        case 2:
            return queue_priority::UTILITY;
        case 4:
            return queue_priority::BACKGROUND;
        default:
            return queue_priority::DEFAULT;
    }
}
static int
prio_id(queue_priority p)
{
    switch (p) {
        case queue_priority::USER_INTERACTIVE:
            return 0;
        case queue_priority::USER_INITIATED:
            return 1;
        case queue_priority::UTILITY:
            return 2;
        case queue_priority::DEFAULT:
            return 3;
        case queue_priority::BACKGROUND:
            return 4;
    }
    return -1;
}

// -------------------------------------------------------------------- trace

// where the current thread is: 0 user thread, 1 library thread (default),
// 2 inside exec(), 10+k worker of custom pool k, 30+k QThread k
static thread_local int t_where = 1;
static thread_local int t_prio = -1;

#define EV(name, fmt, ...)                                                     \
    vs::emit("[\"" name "\",%d,%lld" fmt "]",                                  \
             vs::tid(),                                                        \
             static_cast<long long>(vs::now_ms()),                             \
             ##__VA_ARGS__)

static int g_next_o = 0;    // operation instances
static int g_next_x = 0;    // executions
static int g_next_c = 0;    // calls
static int g_next_m = 0;    // emits
static int g_gate[64];

static int
next_id(int& c)
{
    vs::quiet_scope q;
    return ++c;
}

static void
run_body(int tmpl, int arg);

// the destructor of what the functor of a template has captured: statement
// "dtor T" in the template's body
struct dtor
{
    explicit dtor(int tmpl)
    {
        auto it = P->ops.find(tmpl);
        if (it != P->ops.end() && !it->second.empty() &&
            it->second[0].f == "dtor") {
            body = it->second[0].a[0];
        }
    }
    dtor(const dtor&) = delete;
    ~dtor()
    {
        if (body >= 0) {
            run_body(body, 0);
        }
    }
    int body = -1;
};
static std::shared_ptr<dtor>
captured(int tmpl)
{
    vs::quiet_scope q;
    return std::make_shared<dtor>(tmpl);
}

struct token
{
    token(int o, int tmpl)
      : o(o)
      , d(tmpl)
    {}
    ~token() { EV("de", ",%d", o); }
    const int o;
    const dtor d;
};

static int g_inv[256]; // invocations per op template

#ifdef WITH_QT
static int
qt_where(int where);
#else
static int
qt_where(int where)
{
    return where;
}
#endif

static void
emit_current();

struct exec_scope
{
    exec_scope(const char* kind, int q, int a, int b)
    {
        x = next_id(g_next_x);
        EV("st",
           ",%d,%d,%d,%d,\"%s\",%d,%d",
           x,
           q,
           qt_where(t_where),
           t_prio,
           kind,
           a,
           b);
        if (t_where >= 10 && t_where < 30) {
            emit_current();
        }
    }
    ~exec_scope() { EV("en", ",%d", x); }
    int x;
};

// functor used for operations which are tracked one by one
struct op_fn
{
    std::shared_ptr<token> tok;
    int tmpl;
    int q;
    void operator()() const
    {
        exec_scope s("op", q, tok->o, 0);
        run_body(tmpl, tok->o);
    }
};
class op_derived : public xd::operation
{
public:
    op_derived(const op_fn& f)
      : m_f(f)
    {}

protected:
    void operator()() override { m_f(); }

private:
    const op_fn m_f;
};

// an operation which gets submitted several times: its executions take the ids
// of the submissions in order
class op_again : public xd::operation
{
public:
    op_again(int tmpl, int q, int times)
      : m_tmpl(tmpl)
      , m_q(q)
      , m_left(times)
      , m_d(tmpl)
    {}
    ~op_again() override
    {
        vs::quiet_scope q;
        if (m_last) {
            EV("de", ",%d", m_last);
        }
        for (int o : m_ids) {
            EV("de", ",%d", o);
        }
    }
    int add()
    {
        vs::quiet_scope q;
        m_ids.push_back(next_id(g_next_o));
        return m_ids.back();
    }

protected:
    void operator()() override
    {
        int o = m_last;
        {
            vs::quiet_scope q;
            if (!m_ids.empty()) {
                o = m_ids.front();
                m_ids.pop_front();
            }
        }
        {
            exec_scope s("op", m_q, o, 0);
            run_body(m_tmpl, o);
        }
        vs::quiet_scope q;
        if (--m_left == 0) {
            m_last = o;
        } else {
            EV("de", ",%d", o);
        }
    }

private:
    const int m_tmpl, m_q;
    int m_left;
    int m_last = 0;
    std::deque<int> m_ids;
    const dtor m_d;
};

// operations and handlers which are member functions
struct member_op
{
    op_fn f;
    void run()
    {
        op_fn mine;
        {
            vs::quiet_scope q;
            mine = std::move(f);
            delete this;
        }
        mine();
    }
};

// ------------------------------------------------------------ custom pool

static void*
pool_thread(void* p);

class custom_pool : public xd::naive::ithreadpool
{
public:
    custom_pool(int id, int workers)
      : m_id(id)
    {
        m_state->workers = workers;
    }
    ~custom_pool() override
    {
        EV("pd", ",%d", m_id);
        m_state->dead = true;
    }
    void execute(const xd::operation_ptr& work, queue_priority p) override
    {
        vs::quiet_scope q;
        m_state->items.push_back({ work, prio_id(p) });
    }
    struct item
    {
        xd::operation_ptr op;
        int prio;
    };
    struct state
    {
        std::deque<item> items;
        std::weak_ptr<custom_pool> pool;
        int workers = 0;
        int threads = 0;
        bool elastic = false; // adds a thread for each blocked one
        int running = 0;
        int blocked = 0;
        bool dead = false;
    };
    std::shared_ptr<state> m_state = std::make_shared<state>();
    static void run_item(xd::operation& op, xd::naive::ithreadpool* p)
    {
        run_with_threadpool(op, p);
    }
    int id() const { return m_id; }

protected:
    void notify_thread_blocked() override
    {
        EV("pb", ",%d", m_id);
        bool grow = false;
        {
            vs::quiet_scope q;
            m_state->blocked++;
            if (m_state->elastic &&
                m_state->threads < m_state->workers + m_state->blocked) {
                m_state->threads++;
                grow = true;
            }
        }
        if (grow) {
            pthread_t t;
            pthread_create(
              &t, nullptr, pool_thread, reinterpret_cast<void*>(intptr_t(m_id)));
        }
    }
    void notify_thread_unblocked() override
    {
        EV("pu", ",%d", m_id);
        vs::quiet_scope q;
        m_state->blocked--;
    }

private:
    const int m_id;
};

static void
emit_current()
{
    auto* const c = xd::naive::ithreadpool::current();
    auto* const p = dynamic_cast<custom_pool*>(c);
    EV("cu", ",%d", p ? p->id() : c ? -2 : -1);
}

// ---------------------------------------------------------------- signals

struct nodef // not default constructible, with a consistency check
{
    explicit nodef(int v)
      : v(v)
      , w(~v)
    {}
    int v, w;
    int get() const { return w == ~v ? v : -1; }
};

struct isig
{
    virtual ~isig() = default;
    virtual xd::connection connect(std::function<void(int)> f,
                                   const xd::queue& q,
                                   xd::notification_mode m) = 0;
    virtual xd::connection chain(isig& o) = 0;
    virtual void emit(int v) = 0;
    virtual xd::signal_p& base() = 0;
    struct ibar
    {
        virtual ~ibar() = default;
        virtual bool wait(milliseconds) = 0;
        virtual int value() = 0; // -1 inconsistent, -2 throws
    };
    virtual std::unique_ptr<ibar> barrier() = 0;
};

struct member_target // for connections to member functions
{
    std::function<void(int)> f;
    void on1(int v, std::string s) { f(s == std::to_string(v) ? v : -1); }
    void on2(nodef n) { f(n.get()); }
};

struct sig1 : isig
{
    using type = xd::signal<void(int, std::string)>;
    std::unique_ptr<type> s;
    std::vector<std::shared_ptr<member_target>>* keep = nullptr;
    explicit sig1(xd::group* g)
      : s(g ? new type(*g) : new type())
    {}
    xd::connection connect(std::function<void(int)> f,
                           const xd::queue& q,
                           xd::notification_mode m) override
    {
        return s->connect(
          [f](int v, std::string t) { f(t == std::to_string(v) ? v : -1); },
          q,
          m);
    }
    xd::connection chain(isig& o) override
    {
        return s->connect(*static_cast<sig1&>(o).s);
    }
    void emit(int v) override { (*s)(v, std::to_string(v)); }
    xd::signal_p& base() override { return *s; }
    struct bar : ibar
    {
        xd::signal_barrier<void(int, std::string)> b;
        explicit bar(type& s)
          : b(s)
        {}
        bool wait(milliseconds t) override { return b.wait(t); }
        int value() override
        {
            try {
                auto v = b.values();
                return std::get<1>(v) == std::to_string(std::get<0>(v)) &&
                           b.template value<0>() == std::get<0>(v)
                         ? std::get<0>(v)
                         : -1;
            } catch (const std::runtime_error&) {
                return -2;
            }
        }
    };
    std::unique_ptr<ibar> barrier() override
    {
        return std::unique_ptr<ibar>(new bar(*s));
    }
};
struct sig2 : isig
{
    using type = xd::signal<void(nodef)>;
    std::unique_ptr<type> s;
    explicit sig2(xd::group* g)
      : s(g ? new type(*g) : new type())
    {}
    xd::connection connect(std::function<void(int)> f,
                           const xd::queue& q,
                           xd::notification_mode m) override
    {
        return s->connect([f](nodef n) { f(n.get()); }, q, m);
    }
    xd::connection chain(isig& o) override
    {
        return s->connect(*static_cast<sig2&>(o).s);
    }
    void emit(int v) override { (*s)(nodef(v)); }
    xd::signal_p& base() override { return *s; }
    struct bar : ibar
    {
        xd::signal_barrier<void(nodef)> b;
        explicit bar(type& s)
          : b(s)
        {}
        bool wait(milliseconds t) override { return b.wait(t); }
        int value() override
        {
            try {
                return b.value().get();
            } catch (const std::runtime_error&) {
                return -2;
            }
        }
    };
    std::unique_ptr<ibar> barrier() override
    {
        return std::unique_ptr<ibar>(new bar(*s));
    }
};

// ------------------------------------------------------------------ objects

template<class T>
struct slots
{
    std::map<int, std::shared_ptr<T>> m;
    // copies of the handle (not of the slot): std::shared_ptr<T> only guards
    // the harness' own box
    std::shared_ptr<T> get(int i)
    {
        vs::quiet_scope s;
        auto it = m.find(i);
        return it == m.end() ? nullptr : it->second;
    }
    void put(int i, std::shared_ptr<T> p)
    {
        vs::quiet_scope s;
        m[i] = std::move(p);
    }
    std::shared_ptr<T> take(int i)
    {
        vs::quiet_scope s;
        auto it = m.find(i);
        if (it == m.end()) {
            return nullptr;
        }
        auto p = std::move(it->second);
        m.erase(it);
        return p;
    }
};

static slots<xd::queue> Q;
static slots<xd::group> G;
static slots<xd::timer> T;
static slots<xd::socket_notifier> N;
static slots<isig> S;
static slots<xd::connection> C;
static slots<xd::scoped_connection> SC;
static slots<xd::connection_manager> M;
static slots<xd::barrier_operation> B;
static slots<isig::ibar> SB;
static std::map<int, std::shared_ptr<custom_pool>> POOL;
static std::map<int, std::shared_ptr<custom_pool::state>> POOLST;
static std::map<int, std::pair<int, int>> SOCK;
static std::map<int, std::vector<int>> MCONN; // manager -> connection ids
static std::map<int, int> MADDING;            // manager -> calls which add
static std::map<int, int> MRESETS;            // manager -> resets so far
static std::map<int, int> MRESETTING;         // manager -> calls which reset
static std::map<int, int> CSIG;               // connection -> signal
static std::map<int, int> SCID_;              // scoped slot -> connection
static int
scid(int i)
{
    vs::quiet_scope q;
    return SCID_[i];
}
static void
set_scid(int i, int c)
{
    vs::quiet_scope q;
    SCID_[i] = c;
}

// a handle is copied without scheduling points, and destroyed likewise when it
// is certainly not the last one
#define GETQ(name, i)                                                          \
    std::shared_ptr<xd::queue> name##_p = Q.get(i);                            \
    if (!name##_p)                                                             \
        return;                                                                \
    vs::quiet_begin();                                                         \
    std::unique_ptr<xd::queue> name##_c(new xd::queue(*name##_p));             \
    name##_p.reset();                                                          \
    vs::quiet_end();                                                           \
    xd::queue& name = *name##_c

struct ev_call
{
    int c;
    ev_call()
      : c(next_id(g_next_c))
    {}
};

static void
exec_stmt(const stmt& s, int self_tmpl, int arg);

static void
run_list(const body_t& b, int tmpl, int arg, int inv)
{
    for (const auto& s : b) {
        if (s.at && s.at != inv) {
            continue;
        }
        exec_stmt(s, tmpl, arg);
    }
}

static void
run_body(int tmpl, int arg)
{
    const int inv = next_id(g_inv[tmpl & 255]);
    auto it = P->ops.find(tmpl);
    if (it != P->ops.end()) {
        run_list(it->second, tmpl, arg, inv);
    }
}

// ------------------------------------------- objects of another backend

XDISPATCH_DECLARE_BACKEND(naive)

static thread_local int t_mix = 0; // the mixing call under way

struct stub_queue : xd::iqueue_impl
{
    explicit stub_queue(xd::iqueue_impl_ptr i)
      : in(std::move(i))
    {}
    void async(const xd::operation_ptr& op) override { in->async(op); }
    void apply(size_t n, const xd::iteration_operation_ptr& op) override
    {
        in->apply(n, op);
    }
    void after(milliseconds d, const xd::operation_ptr& op) override
    {
        in->after(d, op);
    }
    xd::backend_type backend() override { return xd::backend_type::qt5; }
    xd::iqueue_impl_ptr in;
};
static void
stub_touched()
{
    if (t_mix) {
        EV("mt", ",%d", t_mix);
    }
}
struct stub_group : xd::igroup_impl
{
    void async(const xd::operation_ptr& op,
               const xd::iqueue_impl_ptr& q) override
    {
        stub_touched();
        in->async(op, q);
    }
    bool wait(milliseconds t) override
    {
        stub_touched();
        return in->wait(t);
    }
    void notify(const xd::operation_ptr& op,
                const xd::iqueue_impl_ptr& q) override
    {
        stub_touched();
        in->notify(op, q);
    }
    xd::backend_type backend() override { return xd::backend_type::qt5; }
    xd::igroup_impl_ptr in = naive_backend_get_static_instance()->create_group();
};
struct stub_timer : xd::itimer_impl
{
    stub_timer(int t, xd::itimer_impl_ptr i)
      : type(t)
      , in(std::move(i))
    {}
    void interval(milliseconds i) override
    {
        stub_touched();
        in->interval(i);
    }
    void latency(xd::timer_precision p) override
    {
        stub_touched();
        in->latency(p);
    }
    void handler(const xd::operation_ptr& op) override
    {
        stub_touched();
        in->handler(op);
    }
    void target_queue(const xd::iqueue_impl_ptr& q) override
    {
        stub_touched();
        in->target_queue(q);
    }
    void resume(milliseconds d) override
    {
        stub_touched();
        in->resume(d);
    }
    void suspend() override
    {
        stub_touched();
        in->suspend();
    }
    void cancel() override
    {
        stub_touched();
        in->cancel();
    }
    xd::backend_type backend() override
    {
        return type ? xd::backend_type::qt5 : xd::backend_type::naive;
    }
    const int type;
    xd::itimer_impl_ptr in;
};
struct stub_notifier : xd::isocket_notifier_impl
{
    stub_notifier(int t, xd::isocket_notifier_impl_ptr i)
      : kind(t)
      , in(std::move(i))
    {}
    void handler(const xd::socket_notifier_operation_ptr& op) override
    {
        stub_touched();
        in->handler(op);
    }
    void target_queue(const xd::iqueue_impl_ptr& q) override
    {
        stub_touched();
        in->target_queue(q);
    }
    void resume() override
    {
        stub_touched();
        in->resume();
    }
    void suspend() override
    {
        stub_touched();
        in->suspend();
    }
    void cancel() override
    {
        stub_touched();
        in->cancel();
    }
    xd::socket_t socket() const override { return in->socket(); }
    xd::notifier_type type() const override { return in->type(); }
    xd::backend_type backend() override
    {
        return kind ? xd::backend_type::qt5 : xd::backend_type::naive;
    }
    const int kind;
    xd::isocket_notifier_impl_ptr in;
};

static int
queue_type(int q)
{
    const auto& d = P->queues.at(q);
    return d.kind == "foreign" || d.kind == "qserial" || d.kind == "qpar" ? 1
           : d.kind == "waitable"                        ? queue_type(d.arg)
                                                         : 0;
}

// runs a call which combines objects of the given backends, true if it was
// accepted
template<class F>
static bool
mixing(int kind, int impl_type, int q_type, F f, int o = -1)
{
    const int c = next_id(g_next_c);
    EV("mx", ",%d,%d,%d,%d,%d", c, kind, impl_type, q_type, o);
    int res = 0;
    t_mix = c;
    try {
        f();
    } catch (const std::logic_error&) {
        res = 1;
    } catch (...) {
        res = 2;
    }
    t_mix = 0;
    EV("mxr", ",%d,%d", c, res);
    return !res;
}
template<class F>
static bool
group_call(int kind, int g, int q, int o, F f)
{
    const int gt = P->groups.at(g);
    const int qt = queue_type(q);
    if (!gt && !qt) {
        f();
        return true;
    }
    return mixing(kind, gt, qt, f, o);
}

#ifdef WITH_QT
    #include "qt_part.h"
#endif

static void
make_queue(int id)
{
    const auto& d = P->queues.at(id);
    std::shared_ptr<xd::queue> q;
    const std::string label = "q" + std::to_string(id);
    if (d.kind == "serial") {
        q = std::make_shared<xd::queue>(label, prio(d.prio));
    } else if (d.kind == "global") {
        q = std::make_shared<xd::queue>(xd::global_queue(prio(d.prio)));
    } else if (d.kind == "main") {
        q = std::make_shared<xd::queue>(xd::main_queue());
    } else if (d.kind == "cserial") {
        q = std::make_shared<xd::queue>(
          xd::naive::create_serial_queue(label, POOL.at(d.arg), prio(d.prio)));
    } else if (d.kind == "cpar") {
        q = std::make_shared<xd::queue>(xd::naive::create_parallel_queue(
          label, POOL.at(d.arg), prio(d.prio)));
    } else if (d.kind == "waitable") {
        q = std::make_shared<xd::waitable_queue>(label, *Q.get(d.arg));
    } else if (d.kind == "foreign") {
        q = std::make_shared<xd::queue>(
          label, std::make_shared<stub_queue>(Q.get(d.arg)->implementation()));
    } else if (d.kind == "wserial") {
        q = std::make_shared<xd::waitable_queue>(label, prio(d.prio));
#ifdef WITH_QT
    } else if (d.kind == "qserial") {
        q = std::make_shared<xd::queue>(qt_serial(label, d.arg));
    } else if (d.kind == "qpar") {
        q = std::make_shared<xd::queue>(qt_parallel(label, d.arg, prio(d.prio)));
#endif
    } else {
        fprintf(stderr, "bad queue kind %s\n", d.kind.c_str());
        _exit(9);
    }
    Q.put(id, q);
}

static void
do_disconnect(const std::shared_ptr<xd::connection>& c, int cid)
{
    ev_call e;
    vs::quiet_begin();
    xd::connection copy(*c);
    vs::quiet_end();
    EV("dc", ",%d,%d", e.c, cid);
    const bool r = copy.disconnect();
    EV("dcr", ",%d,%d", e.c, r ? 1 : 0);
}

// what is next in a custom pool, on this thread
static bool
run_pool_item(int id, custom_pool::state* st, bool worker)
{
    custom_pool::item it;
    std::shared_ptr<custom_pool> pool;
    {
        vs::quiet_scope q;
        if (st->items.empty()) {
            return false;
        }
        it = st->items.front();
        st->items.pop_front();
        pool = st->pool.lock();
        st->running += worker ? 1 : 0;
    }
    const int where = t_where;
    const int prio = t_prio;
    t_where = 10 + id;
    t_prio = it.prio;
    custom_pool::run_item(*it.op, pool.get());
    t_where = where;
    t_prio = prio;
    it.op.reset();
    {
        vs::quiet_scope q;
        st->running -= worker ? 1 : 0;
    }
    emit_current();
    return true;
}

static void
exec_stmt(const stmt& s, int self_tmpl, int arg)
{
    const auto& f = s.f;
    const int* a = s.a;
    ev_call e;
    (void)self_tmpl;
    if (f == "dtor") {
        // see captured()
    } else if (f == "async" || f == "gasync" || f == "gaprio") {
        const bool grp = f != "async";
        const int qi = grp ? a[1] : a[0];
        const int tmpl = grp ? a[2] : a[1];
        GETQ(q, qi);
        std::shared_ptr<xd::group> gp;
        if (grp) {
            auto g = G.get(a[0]);
            if (!g) {
                return;
            }
            vs::quiet_scope qs;
            gp = std::make_shared<xd::group>(*g);
        }
        const int o = next_id(g_next_o);
        op_fn fn{ std::make_shared<token>(o, tmpl), tmpl, qi };
        EV("sub", ",%d,%d,%d", o, qi, grp ? a[0] : -1);
        bool ok = true;
        if (o % 5 == 3) {
            auto* m = new member_op{ fn };
            fn.tok.reset();
            xd::operation_ptr op = xd::make_operation(m, &member_op::run);
            if (f == "gaprio") {
                gp->async(op, prio(P->queues.at(qi).prio));
            } else if (grp) {
                ok = group_call(3, a[0], qi, o, [&] { gp->async(op, q); });
            } else {
                q.async(op);
            }
            if (!ok) {
                delete m;
            }
        } else if ((o & 1) == 0) {
            xd::operation_ptr op = std::make_shared<op_derived>(fn);
            fn.tok.reset();
            if (f == "gaprio") {
                gp->async(op, prio(P->queues.at(qi).prio));
            } else if (grp) {
                ok = group_call(3, a[0], qi, o, [&] { gp->async(op, q); });
            } else {
                q.async(op);
            }
            op.reset();
        } else {
            if (f == "gaprio") {
                gp->async(fn, prio(P->queues.at(qi).prio));
            } else if (grp) {
                ok = group_call(3, a[0], qi, o, [&] { gp->async(fn, q); });
            } else {
                q.async(fn);
            }
            fn.tok.reset();
        }
        if (ok) {
            EV("subr", ",%d", o);
        }
    } else if (f == "again") {
        GETQ(q, a[1]);
        std::shared_ptr<xd::group> gp;
        if (a[0] >= 0) {
            auto g = G.get(a[0]);
            if (!g) {
                return;
            }
            vs::quiet_scope qs;
            gp = std::make_shared<xd::group>(*g);
        }
        auto op = std::make_shared<op_again>(a[2], a[1], a[3]);
        int first = -1;
        for (int i = 0; i < a[3]; ++i) {
            const int o = op->add();
            EV("sub", ",%d,%d,%d", o, a[1], a[0]);
            if (0 == i) {
                first = o;
            }
            EV("ag", ",%d,%d", o, first);
            if (gp) {
                gp->async(op, q);
            } else {
                q.async(op);
            }
            EV("subr", ",%d", o);
        }
    } else if (f == "apply") {
        GETQ(q, a[0]);
        const int qi = a[0];
        const int tmpl = a[2];
        EV("ap", ",%d,%d,%d", e.c, a[0], a[1]);
        const int c = e.c;
        const auto d = captured(tmpl);
        if (c & 1) {
            q.apply(a[1], [c, qi, tmpl, d](size_t i) {
                exec_scope sc("ap", qi, c, static_cast<int>(i));
                run_body(tmpl, static_cast<int>(i));
            });
        } else {
            struct body
            {
                int c, q, tmpl;
                void run(size_t i)
                {
                    exec_scope sc("ap", q, c, static_cast<int>(i));
                    run_body(tmpl, static_cast<int>(i));
                }
            };
            body* b = nullptr; // lives on even if apply returned too early
            {
                vs::quiet_scope qs;
                b = new body{ c, qi, tmpl };
            }
            q.apply(a[1], xd::make_iteration_operation(b, &body::run));
        }
        EV("apr", ",%d", e.c);
    } else if (f == "after") {
        GETQ(q, a[0]);
        const int o = next_id(g_next_o);
        op_fn fn{ std::make_shared<token>(o, a[2]), a[2], a[0] };
        EV("af", ",%d,%d,%d", o, a[0], a[1]);
        q.after(milliseconds(a[1]), fn);
        fn.tok.reset();
        EV("afr", ",%d", o);
    } else if (f == "gwait") {
        auto g = G.get(a[0]);
        if (!g) {
            return;
        }
        vs::quiet_begin();
        std::unique_ptr<xd::group> gc(new xd::group(*g));
        g.reset();
        vs::quiet_end();
        EV("gw", ",%d,%d,%d", e.c, a[0], a[1]);
        // -2 stands for the largest timeout
        const bool r = gc->wait(a[1] == -2 ? milliseconds::max()
                                           : milliseconds(a[1]));
        EV("gwr", ",%d,%d", e.c, r ? 1 : 0);
    } else if (f == "notify") {
        auto g = G.get(a[0]);
        if (!g) {
            return;
        }
        GETQ(q, a[1]);
        vs::quiet_begin();
        std::unique_ptr<xd::group> gc(new xd::group(*g));
        g.reset();
        vs::quiet_end();
        const int o = next_id(g_next_o);
        op_fn fn{ std::make_shared<token>(o, a[2]), a[2], a[1] };
        EV("gn", ",%d,%d,%d", o, a[0], a[1]);
        const bool ok =
          group_call(4, a[0], a[1], o, [&] { gc->notify(fn, q); });
        fn.tok.reset();
        if (ok) {
            EV("gnr", ",%d", o);
        }
    } else if (f == "mkq") {
        make_queue(a[0]);
    } else if (f == "dropq") {
        auto p = Q.take(a[0]);
        EV("xq", ",%d", a[0]);
        p.reset();
    } else if (f == "dropg") {
        auto p = G.take(a[0]);
        p.reset();
    } else if (f == "dropp") {
        std::shared_ptr<custom_pool> p;
        {
            vs::quiet_scope q;
            p = POOL[a[0]];
            POOL.erase(a[0]);
        }
        EV("xp", ",%d", a[0]);
        p.reset();
    }
    // ------------------------------------------------------------ timers
    else if (f == "tnew") {
        GETQ(q, a[2]);
        const int k = a[0];
        const int qi = a[2];
        const int tmpl = a[3];
        EV("tc", ",%d,%d,%d", k, a[1], a[2]);
        auto t = std::make_shared<xd::timer>(milliseconds(a[1]), q);
        const auto d = captured(tmpl);
        t->handler([k, qi, tmpl, d] {
            exec_scope sc("tm", qi, k, 0);
            run_body(tmpl, k);
        });
        T.put(k, t);
    } else if (f == "tres" || f == "tsus" || f == "tcan" || f == "tint") {
        auto t0 = T.get(a[0]);
        if (!t0) {
            return;
        }
        vs::quiet_begin();
        std::unique_ptr<xd::timer> t(new xd::timer(*t0));
        t0.reset();
        vs::quiet_end();
        if (f == "tres") {
            EV("tres", ",%d,%d,%d", e.c, a[0], a[1]);
            t->resume(milliseconds(a[1]));
            EV("tresr", ",%d,%d", e.c, a[0]);
        } else if (f == "tsus") {
            EV("tsus", ",%d,%d", e.c, a[0]);
            t->suspend();
            EV("tsusr", ",%d,%d", e.c, a[0]);
        } else if (f == "tcan") {
            EV("tcan", ",%d,%d", e.c, a[0]);
            t->cancel();
            EV("tcanr", ",%d,%d", e.c, a[0]);
        } else {
            EV("tint", ",%d,%d,%d", e.c, a[0], a[1]);
            t->interval(milliseconds(a[1]));
            EV("tintr", ",%d,%d,%d", e.c, a[0], a[1]);
        }
    } else if (f == "dropt") {
        auto p = T.take(a[0]);
        p.reset();
    }
    // ------------------------------------------- mixing of backends
    else if (f == "mtimer") { // k type implqueue queue tmpl
        const int k = a[0];
        const int qi = a[2];
        const int tmpl = a[4];
        GETQ(iq, qi);
        GETQ(q, a[3]);
        xd::itimer_impl_ptr impl = std::make_shared<stub_timer>(
          a[1],
          naive_backend_get_static_instance()->create_timer(
            iq.implementation()));
        std::shared_ptr<xd::timer> t;
        if (!mixing(0, a[1], queue_type(a[3]), [&] {
                t = std::make_shared<xd::timer>(impl, q);
            })) {
            // the parts are still good for each other
            mixing(0, a[1], queue_type(qi), [&] {
                t = std::make_shared<xd::timer>(impl, iq);
            });
        }
        impl.reset();
        if (t) {
            EV("tc", ",%d,7,%d", k, qi);
            t->interval(milliseconds(7));
            t->handler([k, qi, tmpl] {
                exec_scope sc("tm", qi, k, 0);
                run_body(tmpl, k);
            });
            T.put(k, t);
        }
    } else if (f == "mnotif") { // k socket type implqueue queue tmpl
        const int k = a[0];
        const int si = a[1];
        const int qi = a[3];
        const int tmpl = a[5];
        const int fd = SOCK.at(si).first;
        GETQ(iq, qi);
        GETQ(q, a[4]);
        xd::isocket_notifier_impl_ptr impl = std::make_shared<stub_notifier>(
          a[2],
          naive_backend_get_static_instance()->create_socket_notifier(
            iq.implementation(), fd, xd::notifier_type::READ));
        std::shared_ptr<xd::socket_notifier> n;
        if (!mixing(1, a[2], queue_type(a[4]), [&] {
                n = std::make_shared<xd::socket_notifier>(impl, q);
            })) {
            mixing(1, a[2], queue_type(qi), [&] {
                n = std::make_shared<xd::socket_notifier>(impl, iq);
            });
        }
        impl.reset();
        if (n) {
            EV("nc", ",%d,%d,0,%d", k, si, qi);
            n->handler([k, si, fd, qi, tmpl](xd::socket_t s,
                                             xd::notifier_type t) {
                exec_scope sc("nt",
                              qi,
                              k,
                              s == fd && t == xd::notifier_type::READ ? si : -1);
                run_body(tmpl, k);
            });
            N.put(k, n);
        }
    } else if (f == "qtimer" || f == "qnotif") { // queue [socket]
        GETQ(q, a[0]);
#ifdef WITH_QT
        const int it = queue_type(a[0]);
#else
        const int it = 0;
#endif
        mixing(2, it, queue_type(a[0]), [&] {
            if (f == "qtimer") {
                xd::timer(milliseconds(7), q);
            } else {
                xd::socket_notifier(
                  SOCK.at(a[1]).first, xd::notifier_type::READ, q);
            }
        });
    }
    // --------------------------------------------------------- notifiers
    else if (f == "nnew") {
        GETQ(q, a[3]);
        const int k = a[0];
        const int si = a[1];
        const int qi = a[3];
        const int tmpl = a[4];
        const int type = a[2];
        const int fd = SOCK.at(si).first;
        EV("nc", ",%d,%d,%d,%d", k, si, type, qi);
        auto n = std::make_shared<xd::socket_notifier>(
          fd,
          type ? xd::notifier_type::WRITE : xd::notifier_type::READ,
          q);
        const auto d = captured(tmpl);
        n->handler([k, si, fd, qi, tmpl, type, d](xd::socket_t s,
                                                  xd::notifier_type t) {
            const bool ok =
              s == fd && (t == xd::notifier_type::WRITE) == (type == 1);
            exec_scope sc("nt", qi, k, ok ? si : -1);
            run_body(tmpl, k);
        });
        N.put(k, n);
    } else if (f == "nres" || f == "nsus" || f == "ncan") {
        auto t0 = N.get(a[0]);
        if (!t0) {
            return;
        }
        vs::quiet_begin();
        std::unique_ptr<xd::socket_notifier> t(new xd::socket_notifier(*t0));
        t0.reset();
        vs::quiet_end();
        if (f == "nres") {
            EV("nres", ",%d,%d", e.c, a[0]);
            t->resume();
            EV("nresr", ",%d,%d", e.c, a[0]);
        } else if (f == "nsus") {
            EV("nsus", ",%d,%d", e.c, a[0]);
            t->suspend();
            EV("nsusr", ",%d,%d", e.c, a[0]);
        } else {
            EV("ncan", ",%d,%d", e.c, a[0]);
            t->cancel();
            EV("ncanr", ",%d,%d", e.c, a[0]);
        }
    } else if (f == "dropn") {
        auto p = N.take(a[0]);
        EV("xn", ",%d", a[0]);
        p.reset();
    } else if (f == "swrite") {
        vs::quiet_scope atomic; // makes the monitored end readable
        if (SOCK.at(a[0]).second < 0) {
            return;
        }
        char b[64];
        memset(b, 1, sizeof(b));
        EV("sw", ",%d,%d", a[0], a[1]);
        const ssize_t n = ::write(SOCK.at(a[0]).second, b, a[1]);
        (void)n;
    } else if (f == "sdrain") {
        vs::quiet_scope atomic; // reads from the monitored end
        if (SOCK.at(a[0]).first < 0) {
            return;
        }
        char b[65536];
        const ssize_t n =
          ::read(SOCK.at(a[0]).first, b, a[1] > 0 ? a[1] : sizeof(b));
        int left = 0;
        // readability afterwards
        struct pollfd pf = { SOCK.at(a[0]).first, POLLIN, 0 };
        left = ::poll(&pf, 1, 0);
        (void)n;
        EV("sd", ",%d,%d", a[0], left > 0 ? 1 : 0);
    } else if (f == "sfill") {
        vs::quiet_scope atomic; // fills the monitored end: not writable
        if (SOCK.at(a[0]).first < 0 || SOCK.at(a[0]).second < 0) {
            return; // stays writable
        }
        char b[4096];
        memset(b, 1, sizeof(b));
        while (::write(SOCK.at(a[0]).first, b, sizeof(b)) > 0) {
        }
        while (::write(SOCK.at(a[0]).first, b, 1) > 0) {
        }
        EV("sf", ",%d", a[0]);
    } else if (f == "sempty") {
        vs::quiet_scope atomic; // peer reads all: monitored end writable
        if (SOCK.at(a[0]).second < 0) {
            return;
        }
        char b[65536];
        EV("se", ",%d", a[0]);
        while (::read(SOCK.at(a[0]).second, b, sizeof(b)) > 0) {
        }
    } else if (f == "sclosepeer") {
        vs::quiet_scope atomic;
        if (SOCK.at(a[0]).second < 0) {
            return;
        }
        EV("scp", ",%d", a[0]);
        ::close(SOCK.at(a[0]).second);
        SOCK.at(a[0]).second = -1;
    } else if (f == "sclose") {
        vs::quiet_scope atomic;
        if (SOCK.at(a[0]).first < 0) {
            return;
        }
        EV("scl", ",%d", a[0]);
        ::close(SOCK.at(a[0]).first);
        SOCK.at(a[0]).first = -1;
    }
    // ----------------------------------------------------------- signals
    else if (f == "conn" || f == "chain") {
        auto sg = S.get(a[1]);
        if (!sg) {
            return;
        }
        const int cid = a[0];
        {
            vs::quiet_scope qs;
            CSIG[cid] = a[1];
        }
        if (f == "chain") {
            auto s2 = S.get(a[2]);
            EV("sch", ",%d,%d,%d", cid, a[1], a[2]);
            xd::connection c = sg->chain(*s2);
            EV("schr", ",%d", cid);
            C.put(cid, std::make_shared<xd::connection>(c));
            return;
        }
        GETQ(q, a[2]);
        const int qi = a[2];
        const int tmpl = a[4];
        EV("sc", ",%d,%d,%d,%d", cid, a[1], a[2], a[3]);
        const auto d = captured(tmpl);
        xd::connection c = sg->connect(
          [cid, qi, tmpl, d](int v) {
              exec_scope sc("sg", qi, cid, v);
              run_body(tmpl, v);
          },
          q,
          a[3] == 0 ? xd::notification_mode::batch_updates
                    : xd::notification_mode::single_updates);
        EV("scr", ",%d", cid);
        C.put(cid, std::make_shared<xd::connection>(c));
    } else if (f == "emit") {
        auto sg = S.get(a[0]);
        if (!sg) {
            return;
        }
        isig* raw = sg.get();
        {
            vs::quiet_scope qs;
            sg.reset();
        }
        const int m = next_id(g_next_m);
        EV("em", ",%d,%d", m, a[0]);
        raw->emit(m);
        EV("emr", ",%d", m);
    } else if (f == "cq") { // connected?
        auto c = C.get(a[0]);
        if (!c) {
            return;
        }
        EV("cq", ",%d,%d", e.c, a[0]);
        const bool r = c->connected();
        EV("cqr", ",%d,%d", e.c, r ? 1 : 0);
    } else if (f == "disc") {
        auto c = C.get(a[0]);
        if (c) {
            do_disconnect(c, a[0]);
        }
    } else if (f == "scope") { // moves connection a1 into scoped slot a0
        auto c = C.get(a[1]);
        if (c) {
            auto sc = SC.get(a[0]);
            if (!sc) {
                SC.put(a[0], std::make_shared<xd::scoped_connection>(*c));
                set_scid(a[0], a[1]);
            } else {
                // reassignment disconnects the previous one
                const int old = scid(a[0]);
                EV("dc", ",%d,%d", e.c, old);
                *sc = *c;
                set_scid(a[0], a[1]);
                EV("dcr", ",%d,-1", e.c);
            }
        }
    } else if (f == "unscope") {
        auto sc = SC.take(a[0]);
        if (sc) {
            EV("dc", ",%d,%d", e.c, scid(a[0]));
            sc.reset();
            EV("dcr", ",%d,-1", e.c);
        }
    } else if (f == "movescope") { // a1 := move(a0), previous a1 disconnected
        auto from = SC.get(a[0]);
        auto to = SC.get(a[1]);
        if (from && to) {
            EV("dc", ",%d,%d", e.c, scid(a[1]));
            *to = std::move(*from);
            set_scid(a[1], scid(a[0]));
            EV("dcr", ",%d,-1", e.c);
            SC.take(a[0]).reset();
        }
    } else if (f == "takescope") { // release without disconnecting
        auto sc = SC.take(a[0]);
        if (sc) {
            auto c = std::make_shared<xd::connection>(sc->take());
            sc.reset();
            C.put(scid(a[0]), c);
        }
    } else if (f == "madd") {
        // not while the manager is reset: what that includes would be open
        auto c = C.get(a[1]);
        std::shared_ptr<xd::connection_manager> m;
        {
            vs::quiet_scope qs;
            m = MRESETTING[a[0]] ? nullptr : M.get(a[0]);
            if (m && c) {
                MCONN[a[0]].push_back(a[1]);
                ++MADDING[a[0]];
            }
        }
        if (m && c) {
            *m += *c;
            vs::quiet_scope qs;
            m.reset();
            --MADDING[a[0]];
        }
    } else if (f == "mreset" || f == "mresetw" || f == "mdrop") {
        std::shared_ptr<xd::connection_manager> m;
        std::shared_ptr<isig> sg;
        if (f == "mresetw" && !(sg = S.get(a[1]))) {
            return;
        }
        {
            vs::quiet_scope qs;
            if (f != "mdrop") {
                m = M.get(a[0]);
            } else if (!MRESETTING[a[0]]) {
                m = M.take(a[0]);
            }
            if (m) {
                ++MRESETTING[a[0]];
            }
        }
        if (m) {
            int resets = 0;
            {
                vs::quiet_scope qs;
                resets = ++MRESETS[a[0]];
                if (MRESETTING[a[0]] > 1) {
                    resets = -1;
                }
            }
            int* const adding = [&] {
                vs::quiet_scope qs;
                return &MADDING[a[0]];
            }();
            vs::wait_pred(
              [](void* p) { return 0 == *static_cast<int*>(p); }, adding);
            std::vector<int> cs;
            std::vector<int> calls;
            {
                vs::quiet_scope qs;
                auto& all = MCONN[a[0]];
                std::vector<int> rest;
                for (int c : all) {
                    if (f == "mresetw" && CSIG[c] != a[1]) {
                        rest.push_back(c);
                    } else {
                        cs.push_back(c);
                    }
                }
                all = rest;
            }
            for (int c : cs) {
                calls.push_back(next_id(g_next_c));
                EV("dc", ",%d,%d", calls.back(), c);
            }
            if (f == "mresetw") {
                m->reset_connections_with(sg->base());
            } else if (f == "mreset") {
                m->reset_connections();
            } else {
                m.reset();
            }
            {
                vs::quiet_scope qs;
                resets = MRESETS[a[0]] == resets ? -1 : -2;
            }
            // -2: with two resets at once either may be the one to disconnect
            for (int c : calls) {
                EV("dcr", ",%d,%d", c, resets);
            }
            vs::quiet_scope qs;
            m.reset();
            --MRESETTING[a[0]];
        }
    } else if (f == "skip") {
        auto sg = S.get(a[0]);
        if (sg) {
            EV("sk", ",%d,%d", e.c, a[0]);
            sg->base().skip_all();
            EV("skr", ",%d,%d", e.c, a[0]);
        }
    } else if (f == "sdel") {
        auto sg = S.take(a[0]);
        if (sg) {
            EV("sx", ",%d,%d", e.c, a[0]);
            sg.reset();
            EV("sxr", ",%d,%d", e.c, a[0]);
        }
    }
    // ---------------------------------------------------------- barriers
    else if (f == "bnew") {
        B.put(a[0], std::make_shared<xd::barrier_operation>());
        EV("bn", ",%d", a[0]);
    } else if (f == "brun") {
        auto b = B.get(a[0]);
        if (b) {
            xd::barrier_operation* raw = b.get();
            {
                vs::quiet_scope qs;
                b.reset();
            }
            EV("bc", ",%d,-1", a[0]);
            xd::execute_operation_on_this_thread(*raw);
            EV("bcr", ",%d", a[0]);
        }
    } else if (f == "basync") { // owned by the queue from here on
        auto b = B.get(a[0]);
        GETQ(q, a[1]);
        if (b) {
            EV("bc", ",%d,%d", a[0], a[1]);
            q.async(xd::operation_ptr(b));
        }
    } else if (f == "bwait" || f == "bpass" || f == "bval") {
        auto b = B.get(a[0]);
        auto sb = SB.get(a[0]);
        xd::barrier_operation* raw = b.get();
        isig::ibar* sraw = sb.get();
        {
            vs::quiet_scope qs;
            b.reset();
            sb.reset();
        }
        if (!raw && !sraw) {
            return;
        }
        if (f == "bwait") {
            EV("bw", ",%d,%d,%d", e.c, a[0], a[1]);
            const auto t = a[1] == -2 ? milliseconds::max() : milliseconds(a[1]);
            const bool r = raw ? raw->wait(t) : sraw->wait(t);
            EV("bwr", ",%d,%d", e.c, r ? 1 : 0);
        } else if (f == "bpass") {
            if (raw) {
                EV("bp", ",%d,%d", e.c, a[0]);
                const bool r = raw->has_passed();
                EV("bpr", ",%d,%d", e.c, r ? 1 : 0);
            }
        } else if (sraw) {
            EV("bv", ",%d,%d", e.c, a[0]);
            const int v = sraw->value();
            EV("bvr", ",%d,%d", e.c, v);
        }
    } else if (f == "bdel") {
        auto b = B.take(a[0]);
        auto sb = SB.take(a[0]);
        EV("bx", ",%d", a[0]);
        b.reset();
        sb.reset();
    } else if (f == "sbnew") {
        auto sg = S.get(a[1]);
        if (sg) {
            EV("sb", ",%d,%d", a[0], a[1]);
            std::unique_ptr<isig::ibar> p = sg->barrier();
            EV("sbr", ",%d", a[0]);
            SB.put(a[0], std::shared_ptr<isig::ibar>(std::move(p)));
        }
    }
    // ---------------------------------------------------- waitable queue
    else if (f == "wone" || f == "wall") {
        auto q = Q.get(a[0]);
        if (!q) {
            return;
        }
        auto w = std::static_pointer_cast<xd::waitable_queue>(q);
        if (f == "wone") {
            EV("wo", ",%d,%d", e.c, a[0]);
            w->wait_for_one();
            EV("wor", ",%d,%d", e.c, a[0]);
        } else {
            EV("wa", ",%d,%d", e.c, a[0]);
            w->wait_for_all();
            EV("war", ",%d,%d", e.c, a[0]);
        }
    }
    // -------------------------------------------------------------- misc
    else if (f == "up") {
        {
            vs::quiet_scope qs;
            g_gate[a[0]] += a[1] ? a[1] : 1;
        }
        vs::point();
    } else if (f == "down") {
        EV("ub", ",%d", 1);
        for (bool taken = false; !taken;) {
            vs::wait_pred([](void* p) { return *static_cast<int*>(p) > 0; },
                          &g_gate[a[0]]);
            vs::quiet_scope qs;
            if (g_gate[a[0]] > 0) {
                --g_gate[a[0]];
                taken = true;
            }
        }
        EV("ub", ",%d", 0);
    } else if (f == "await") { // until the gate reached a1
        struct w
        {
            int g, n;
        } x = { a[0], a[1] };
        EV("ub", ",%d", 1);
        vs::wait_pred(
          [](void* p) {
              auto* y = static_cast<w*>(p);
              return g_gate[y->g] >= y->n;
          },
          &x);
        EV("ub", ",%d", 0);
    } else if (f == "sleep") {
        vs::advance(a[0]);
    } else if (f == "point") {
        vs::point();
    } else if (f == "pump") { // pool n: run what is pending in a custom pool
        std::shared_ptr<custom_pool::state> st;
        {
            vs::quiet_scope qs;
            auto it = POOLST.find(a[0]);
            if (it != POOLST.end()) {
                st = it->second;
            }
        }
        for (int i = 0; st && i < a[1] && run_pool_item(a[0], st.get(), false); ++i) {
        }
    } else if (f == "exec") {
        t_where = 2;
        EV("xe", "");
        xd::exec();
    } else if (f == "settle") {
        vs::settle(a[0]);
    } else if (f == "idle") {
        EV("idle", "");
    }
#ifdef WITH_QT
    else if (qt_stmt(s.f, a)) {
    }
#endif
    else {
        fprintf(stderr, "unknown statement %s\n", f.c_str());
        _exit(9);
    }
}

// ------------------------------------------------------------------- runner

static uint32_t g_idle_len = 0;
static vs::result* g_result = nullptr;
static uint32_t g_seen_len = 0;
static long long g_seen_ms = 0;
// how long the library may poll before a lack of progress counts
static const long long k_grace_ms = 3;
static void
on_idle(long long next_ms)
{
    // nothing can run until next_ms; at most one idle event between two others
    if (g_result->len != g_seen_len) {
        g_seen_len = g_result->len;
        g_seen_ms = vs::now_ms();
    }
    if (g_result->len != g_idle_len && next_ms >= g_seen_ms + k_grace_ms) {
        vs::emit("[\"idle\",0,%lld]", static_cast<long long>(vs::now_ms()));
        g_idle_len = g_seen_len = g_result->len;
    }
}

static void*
user_thread(void* p)
{
    t_where = 0;
    const int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
    run_list(P->threads_.at(id), -1, id, 1);
    return nullptr;
}

struct worker_arg
{
    int pool;
};
static void*
pool_thread(void* p)
{
    const int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
    t_where = 0;
    std::shared_ptr<custom_pool::state> st;
    {
        vs::quiet_scope q;
        st = POOLST.at(id);
    }
    for (;;) {
        vs::wait_pred(
          [](void* x) {
              auto* y = static_cast<custom_pool::state*>(x);
              return !y->items.empty() && y->running < y->workers + y->blocked;
          },
          st.get());
        run_pool_item(id, st.get(), true);
    }
    return nullptr;
}

[[noreturn]] static void
on_terminate()
{
    vs::fatal("terminate", "");
}

[[noreturn]] static void
run_child(const vs::config& c, vs::result* r)
{
    g_result = r;
    vs::on_idle = on_idle;
    std::set_terminate(on_terminate);
    const std::string n = std::to_string(P->threads);
    setenv("XDISPATCH2_THREAD_COUNT", n.c_str(), 1);
    setenv("QT_NO_GLIB", "1", 1);
    vs::start(c, r);
    t_where = 0;
    EV("cf", ",%d,%d", P->threads, c.jump_pm ? 1 : 0);
    for (const auto& p : P->pools) {
        EV("dp", ",%d,%d", p.first, p.second);
    }
    for (const auto& q : P->queues) {
        EV("dq",
           ",%d,\"%s\",%d,%d",
           q.first,
           q.second.kind.c_str(),
           q.second.prio < 0 ? 3 : q.second.prio,
           q.second.arg);
    }
    for (const auto& s : P->signals) {
        EV("ds", ",%d,%d,%d", s.first, s.second.first, s.second.second);
    }
    for (const auto& p : P->pools) {
        POOL[p.first] = std::make_shared<custom_pool>(p.first, p.second);
        POOLST[p.first] = POOL[p.first]->m_state;
        POOLST[p.first]->pool = POOL[p.first];
    }
    for (const auto& s : P->socks) {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) {
            _exit(9);
        }
        // keep clear of descriptors opened and closed by others
        const int base = s.second ? 1100 : 100;
        const int x = fcntl(sv[0], F_DUPFD, base + s.first * 2);
        const int y = fcntl(sv[1], F_DUPFD, base + 1 + s.first * 2);
        if (x < 0 || y < 0) {
            _exit(9);
        }
        close(sv[0]);
        close(sv[1]);
        SOCK[s.first] = { x, y };
    }
#ifdef WITH_QT
    qt_init();
#endif
    for (const auto& q : P->queues) {
        // a negative priority marks queues which are created by a statement
        if (q.second.prio >= 0) {
            make_queue(q.first);
        }
    }
    for (const auto& g : P->groups) {
        if (g.second) {
            G.put(g.first,
                  std::make_shared<xd::group>(
                    xd::igroup_impl_ptr(std::make_shared<stub_group>())));
        } else {
            G.put(g.first, std::make_shared<xd::group>());
        }
    }
    for (const auto& s : P->signals) {
        std::shared_ptr<xd::group> g;
        if (s.second.second >= 0) {
            g = G.get(s.second.second);
        }
        if (s.second.first == 0) {
            S.put(s.first, std::make_shared<sig1>(g.get()));
        } else {
            S.put(s.first, std::make_shared<sig2>(g.get()));
        }
    }
    for (int m : P->managers) {
        M.put(m, std::make_shared<xd::connection_manager>());
    }
    for (const auto& p : P->pools) {
        const auto extra = P->pool_extra.find(p.first);
        const auto st = POOLST[p.first];
        st->elastic = extra != P->pool_extra.end() && extra->second > 0;
        st->threads = p.second;
        for (int i = 0; i < p.second; ++i) {
            pthread_t t;
            pthread_create(
              &t, nullptr, pool_thread, reinterpret_cast<void*>(intptr_t(p.first)));
        }
    }
#ifdef WITH_QT
    qt_go();
#endif
    run_list(P->init, -1, 0, 1);
    for (const auto& t : P->threads_) {
        pthread_t h;
        pthread_create(
          &h, nullptr, user_thread, reinterpret_cast<void*>(intptr_t(t.first)));
    }
    vs::settle(P->settle);
    EV("quiet", ",1");
    run_list(P->final, -1, 0, 1);
    vs::settle(P->settle2);
    EV("quiet", ",2");
    vs::finish();
}

// ------------------------------------------------------------------- parser

static std::vector<program>
parse(std::istream& in)
{
    std::vector<program> ps;
    body_t* cur = nullptr;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string w;
        if (!(ls >> w) || w[0] == '#') {
            continue;
        }
        if (w == "program") {
            ps.emplace_back();
            ls >> ps.back().name;
            cur = nullptr;
            continue;
        }
        program& p = ps.back();
        if (w == "endprogram") {
            cur = nullptr;
        } else if (w == "cfg") {
            std::string k;
            int v;
            while (ls >> k >> v) {
                if (k == "threads") {
                    p.threads = v;
                } else if (k == "settle") {
                    p.settle = v;
                } else if (k == "settle2") {
                    p.settle2 = v;
                } else if (k == "qapp") {
                    p.qapp = v;
                } else if (k == "jump") {
                    p.jump_ok = v;
                }
            }
        } else if (w == "queue") {
            int id;
            queue_decl d;
            ls >> id >> d.kind >> d.prio >> d.arg;
            p.queues[id] = d;
        } else if (w == "pool") {
            int id, n;
            ls >> id >> n;
            p.pools[id] = n;
            ls >> p.pool_extra[id]; // threads for those which are blocked
        } else if (w == "group") {
            int id;
            ls >> id;
            p.groups[id] = 0;
            ls >> p.groups[id];
        } else if (w == "qthread" || w == "qpool") {
            int id, n;
            ls >> id >> n;
            (w == "qpool" ? p.qpools : p.qthreads)[id] = n;
        } else if (w == "manager") {
            int id;
            ls >> id;
            p.managers.insert(id);
        } else if (w == "signal") {
            int id, k, g = -1;
            ls >> id >> k >> g;
            p.signals[id] = { k, g };
        } else if (w == "sock") {
            int id;
            ls >> id;
            p.socks[id] = 0;
            ls >> p.socks[id]; // 1: descriptors beyond FD_SETSIZE
        } else if (w == "op") {
            int id;
            ls >> id;
            cur = &p.ops[id];
        } else if (w == "thread") {
            int id;
            ls >> id;
            cur = &p.threads_[id];
        } else if (w == "init") {
            cur = &p.init;
        } else if (w == "final") {
            cur = &p.final;
        } else if (w == "end") {
            cur = nullptr;
        } else {
            stmt s;
            if (w == "at") {
                ls >> s.at >> w;
            }
            s.f = w;
            for (int i = 0; i < 6 && (ls >> s.a[i]); ++i) {
            }
            if (!cur) {
                fprintf(stderr, "statement outside of a block: %s\n", w.c_str());
                exit(9);
            }
            cur->push_back(s);
        }
    }
    return ps;
}

// renumbers thread ids by first appearance so that equal histories compare equal
static std::string
canonical(const char* t, size_t len)
{
    std::string out;
    out.reserve(len);
    std::map<int, int> ids;
    size_t i = 0;
    while (i < len) {
        // at '['
        size_t j = i;
        while (j < len && t[j] != ',') {
            ++j;
        }
        ++j;
        out.append(t + i, j - i);
        char* end = nullptr;
        const int tid = static_cast<int>(strtol(t + j, &end, 10));
        auto it = ids.emplace(tid, static_cast<int>(ids.size())).first;
        out += std::to_string(it->second);
        i = end - t;
        // up to the end of this event
        j = i;
        while (j < len && t[j] != ']') {
            ++j;
        }
        ++j;
        if (j < len && t[j] == ',') {
            ++j;
        }
        out.append(t + i, j - i);
        i = j;
    }
    return out;
}

static uint64_t
splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static bool g_keep_err = false;
static volatile pid_t g_child = 0;
static volatile sig_atomic_t g_hung = 0;

static void
on_alarm(int)
{
    if (g_child > 0) {
        g_hung = 1;
        kill(g_child, SIGKILL);
    }
}

static int
run_one(const vs::config& c, vs::result* r)
{
    r->len = 0;
    r->steps = r->switches = r->accesses = 0;
    r->done = 0;
    const pid_t pid = fork();
    if (pid == 0) {
        if (!g_keep_err) {
            const int n = open("/dev/null", O_WRONLY);
            dup2(n, 2);
            dup2(n, 1);
        }
        run_child(c, r);
    }
    int st = 0;
    g_child = pid;
    g_hung = 0;
    alarm(30);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    alarm(0);
    g_child = 0;
    if (g_hung) {
        // blocked outside of the scheduler: nothing was decided
        fprintf(stderr, "child hung\n");
        return 9;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) {
        return WEXITSTATUS(st);
    }
    // harness problem or a crash outside of the handlers
    if (WIFEXITED(st)) {
        fprintf(stderr, "child failed with exit code %d\n", WEXITSTATUS(st));
        return 9;
    }
    const char* sep = r->len ? "," : "";
    r->len += snprintf(r->text + r->len,
                       200,
                       "%s[\"fatal\",0,0,\"killed\",\"%d\"]",
                       sep,
                       WTERMSIG(st));
    return 3;
}

static std::string
cfg_str(const vs::config& c)
{
    char b[256];
    snprintf(b,
             sizeof(b),
             "%llu:%d:%d:%d:%d:%d:%d:%d:%d:%d",
             static_cast<unsigned long long>(c.seed),
             c.strategy,
             c.param,
             c.depth,
             c.est_len,
             c.sweep,
             c.plain,
             c.weak_pm,
             c.spurious_pm,
             c.jump_pm);
    return b;
}
static vs::config
cfg_parse(const char* s)
{
    vs::config c;
    unsigned long long seed = 0;
    sscanf(s,
           "%llu:%d:%d:%d:%d:%d:%d:%d:%d:%d",
           &seed,
           &c.strategy,
           &c.param,
           &c.depth,
           &c.est_len,
           &c.sweep,
           &c.plain,
           &c.weak_pm,
           &c.spurious_pm,
           &c.jump_pm);
    c.seed = seed;
    return c;
}

static void
write_trace(FILE* out,
            const program& p,
            const vs::config& c,
            int rc,
            const std::string& text)
{
    fprintf(out,
            "{\"prog\":\"%s\",\"cfg\":\"%s\",\"jump\":%d,\"rc\":%d,\"ev\":[%s]}\n",
            p.name.c_str(),
            cfg_str(c).c_str(),
            c.jump_pm ? 1 : 0,
            rc,
            text.c_str());
}

// interp PROGRAMS OUT budget=<runs per program> seconds=<s> seed=<n>
//        [weak=1] [shard=i/n] [cfg=...] [program=name]
int
main(int argc, char** argv)
{
    struct rlimit files;
    if (0 == getrlimit(RLIMIT_NOFILE, &files) && files.rlim_cur < 4096) {
        files.rlim_cur = files.rlim_max < 4096 ? files.rlim_max : 4096;
        setrlimit(RLIMIT_NOFILE, &files);
    }
    if (argc < 3) {
        return 2;
    }
    int64_t budget = 100;
    double seconds = 1e9;
    uint64_t seed = 1;
    int weak = 0, shard = 0, shards = 1;
    std::string one_cfg, only;
    int maxtr = 1 << 30;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto val = a.substr(a.find('=') + 1);
        if (a.find("budget=") == 0) {
            budget = atoll(val.c_str());
        } else if (a.find("seconds=") == 0) {
            seconds = atof(val.c_str());
        } else if (a.find("seed=") == 0) {
            seed = strtoull(val.c_str(), nullptr, 10);
        } else if (a.find("weak=") == 0) {
            weak = atoi(val.c_str());
        } else if (a.find("shard=") == 0) {
            sscanf(val.c_str(), "%d/%d", &shard, &shards);
        } else if (a.find("cfg=") == 0) {
            one_cfg = val;
        } else if (a.find("program=") == 0) {
            only = val;
        } else if (a.find("err=") == 0) {
            g_keep_err = atoi(val.c_str());
        } else if (a.find("maxtraces=") == 0) {
            maxtr = atoi(val.c_str());
        }
    }
    std::ifstream in(argv[1]);
    auto progs = parse(in);
    FILE* out = fopen(argv[2], "w");
    // pin to one core: handing over the baton is much faster then
    cpu_set_t set;
    if (sched_getaffinity(0, sizeof(set), &set) == 0) {
        int n = CPU_COUNT(&set);
        int want = shard % (n ? n : 1);
        cpu_set_t one;
        CPU_ZERO(&one);
        for (int i = 0, k = 0; i < CPU_SETSIZE; ++i) {
            if (CPU_ISSET(i, &set) && k++ == want) {
                CPU_SET(i, &one);
            }
        }
        sched_setaffinity(0, sizeof(one), &one);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    const size_t cap = 1 << 20;
    auto* r = static_cast<vs::result*>(mmap(nullptr,
                                            sizeof(vs::result) + cap,
                                            PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS,
                                            -1,
                                            0));
    r->cap = cap;
    struct timespec t0;
    auto real_now = [] {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    };
    const double start = real_now();
    (void)t0;
    long long runs = 0, distinct = 0, steps = 0, fatals = 0,
              broken = 0;
    if (!one_cfg.empty()) {
        for (auto& p : progs) {
            if (!only.empty() && p.name != only) {
                continue;
            }
            P = &p;
            const auto c = cfg_parse(one_cfg.c_str());
            const int rc = run_one(c, r);
            write_trace(out, p, c, rc, canonical(r->text, r->len));
        }
        fclose(out);
        return 0;
    }
    std::vector<std::unordered_set<size_t>> seen(progs.size());
    std::vector<int64_t> len(progs.size(), 1000);
    std::vector<int> sweep(progs.size(), 1);
    bool stop = false;
    // round robin over programs, so that running out of time affects all alike
    for (int64_t round = shard; round < budget && !stop; round += shards) {
        for (size_t pi = 0; pi < progs.size(); ++pi) {
            auto& p = progs[pi];
            if (real_now() - start > seconds) {
                stop = true;
                break;
            }
            P = &p;
            uint64_t s = seed * 1000003 + round * 7919 + pi * 104729;
            vs::config c;
            c.seed = splitmix(s) >> 1;
            const int pickst = static_cast<int>(splitmix(s) % 16);
            if (round < shards) {
                c.strategy = vs::ST_BLOCK;
            } else if (pickst < 5) {
                c.strategy = vs::ST_PCT;
                c.depth = 2 + static_cast<int>(splitmix(s) % 4);
                c.est_len = static_cast<int>(len[pi]);
            } else if (pickst < 11) {
                c.strategy = vs::ST_WALK;
                static const int ps[] = { 2, 4, 8, 16, 32, 64, 128 };
                c.param = ps[splitmix(s) % 7];
            } else if (pickst < 15) {
                c.strategy = vs::ST_SWEEP;
                c.sweep =
                  1 + static_cast<int>(splitmix(s) % (len[pi] ? len[pi] : 1));
            } else {
                c.strategy = vs::ST_BLOCK;
            }
            const auto opt = splitmix(s) % 16;
            if (opt < 5) {
                static const int pl[] = { 4, 16, 64, 128, 300 };
                c.plain = pl[opt];
            }
            if (weak && splitmix(s) % 4 == 0) {
                c.weak_pm = 100;
            }
            if (splitmix(s) % 6 == 0) {
                c.spurious_pm = 100;
            }
            if (p.jump_ok && splitmix(s) % 5 == 0) {
                c.jump_pm = 1 + static_cast<int>(splitmix(s) % 20);
            }
            const int rc = run_one(c, r);
            if (rc == 9) {
                // undecided: the run is not part of the exploration
                if (++broken > 2) {
                    stop = true;
                    break;
                }
                continue;
            }
            ++runs;
            steps += r->steps;
            if (c.strategy != vs::ST_PCT || r->steps > len[pi]) {
                len[pi] = (len[pi] + r->steps) / 2;
            }
            if (rc == 3) {
                ++fatals;
            }
            const std::string text = canonical(r->text, r->len);
            // the same history with and without time jumps is judged apart
            const size_t h = std::hash<std::string>()(text) * 2 + (c.jump_pm > 0);
            if (seen[pi].insert(h).second && distinct < maxtr) {
                ++distinct;
                write_trace(out, p, c, rc, text);
            }
        }
    }
    fclose(out);
    printf("{\"runs\":%lld,\"distinct\":%lld,\"steps\":%lld,\"fatals\":%lld,"
           "\"broken\":%lld,\"wall\":%.1f}\n",
           runs,
           distinct,
           steps,
           fatals,
           broken,
           real_now() - start);
    return 0;
}
