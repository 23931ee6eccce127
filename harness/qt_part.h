// Qt part of the interpreter: queues over QThread and QThreadPool, connections
// bound to QObjects. Included by interp.cpp, whose objects it uses.
//
// declarations  qthread K started | qpool K threads
// statements    qstart K            starts a QThread declared as not started
//               qobj J              creates a receiver
//               qchild J P          creates a receiver which is a child of P
//               qconn C S J Q M T   connects C to signal S with receiver J
//               qreg J C            ties the existing connection C to J
//               qdisc J S           disconnects J from signal S
//               qdel J              destroys the receiver
// cfg qapp 1: a QCoreApplication executes on a thread of its own

#include <QtCore/QCoreApplication>
#include <QtCore/QObject>
#include <QtCore/QThread>
#include <QtCore/QThreadPool>

class qt_thread : public QThread
{
public:
    explicit qt_thread(int k)
      : m_k(k)
    {}

protected:
    void run() override
    {
        t_where = 30 + m_k;
        exec();
    }

private:
    const int m_k;
};

// 50+k on a thread of QThreadPool k
static int
qt_where(int where)
{
    if (where != 1) {
        return where;
    }
    static thread_local int s_where = -1;
    if (s_where < 0) {
        vs::quiet_scope qs;
        s_where = 1;
        const std::string n =
          QThread::currentThread()->objectName().toStdString();
        if (n == "Thread (pooled)") {
            s_where = 50 + static_cast<int>(
                             QThread::currentThread()->stackSize() / 65536) -
                      16;
        }
    }
    return s_where;
}

struct receiver : QObject
{
    // calls after the destruction are to be seen, not to crash
    static void* operator new(size_t n) { return ::malloc(n); }
    static void operator delete(void*) {}
    std::function<void(int)>* f = nullptr; // outlives the receiver
    void on1(int v, std::string s) { (*f)(s == std::to_string(v) ? v : -1); }
    void on2(nodef n) { (*f)(n.get()); }
};

static std::map<int, qt_thread*> QTHREAD;
static std::map<int, QThreadPool*> QPOOL;
static std::map<int, receiver*> QOBJ;
static std::map<int, std::vector<int>> QCHILD; // receiver -> children
static std::map<int, std::vector<int>> QOCONN; // receiver -> connections

static int g_app = 0; // 1 created, 2 executes

static void*
app_thread(void*)
{
    static int argc = 1;
    static char name[] = "interp";
    static char* argv[] = { name, nullptr };
    t_where = 2;
    new QCoreApplication(argc, argv);
    g_app = 1;
    vs::wait_pred([](void*) { return g_app == 2; }, nullptr);
    EV("xe", "");
    xd::exec();
    return nullptr;
}
static void
qt_go()
{
    g_app = 2;
}

static void
qt_init()
{
    if (P->qapp) {
        pthread_t t;
        pthread_create(&t, nullptr, app_thread, nullptr);
        vs::wait_pred([](void*) { return g_app == 1; }, nullptr);
    }
    for (const auto& t : P->qthreads) {
        auto* q = new qt_thread(t.first);
        QTHREAD[t.first] = q;
        EV("qt", ",%d,%d", t.first, t.second);
        if (t.second) {
            q->start();
        }
    }
    for (const auto& p : P->qpools) {
        auto* q = new QThreadPool;
        q->setMaxThreadCount(p.second);
        q->setStackSize(65536 * (16 + p.first));
        QPOOL[p.first] = q;
        EV("qp", ",%d,%d", p.first, p.second);
    }
}

static xd::queue
qt_serial(const std::string& label, int thread)
{
    return xd::qt5::create_serial_queue(label, QTHREAD.at(thread));
}

static xd::queue
qt_parallel(const std::string& label, int pool, queue_priority p)
{
    return xd::qt5::create_parallel_queue(label, QPOOL.at(pool), p);
}

// the connections of receiver j (with signal s, if s >= 0), forgotten by it
static std::vector<int>
qt_take(int j, int s)
{
    vs::quiet_scope qs;
    std::vector<int> cs, rest;
    for (int c : QOCONN[j]) {
        (s < 0 || CSIG[c] == s ? cs : rest).push_back(c);
    }
    QOCONN[j] = rest;
    return cs;
}

// the same for the end of a receiver, which ends its children, too
static std::vector<int>
qt_end(int j)
{
    vs::quiet_scope qs;
    auto cs = qt_take(j, -1);
    for (int k : QCHILD[j]) {
        QOBJ.erase(k);
        const auto more = qt_end(k);
        cs.insert(cs.end(), more.begin(), more.end());
    }
    QCHILD.erase(j);
    return cs;
}

template<class F>
static void
qt_disconnects(const std::vector<int>& cs, F f)
{
    std::vector<int> calls;
    for (int c : cs) {
        calls.push_back(next_id(g_next_c));
        EV("dc", ",%d,%d", calls.back(), c);
    }
    f();
    for (int c : calls) {
        EV("dcr", ",%d,-1", c);
    }
}

static bool
qt_stmt(const std::string& f, const int* a)
{
    if (f == "qstart") {
        EV("qt", ",%d,1", a[0]);
        QTHREAD.at(a[0])->start();
    } else if (f == "qobj") {
        auto* r = new receiver;
        vs::quiet_scope qs;
        QOBJ[a[0]] = r;
    } else if (f == "qchild") {
        auto* r = new receiver;
        vs::quiet_scope qs;
        QOBJ[a[0]] = r;
        QCHILD[a[1]].push_back(a[0]);
        r->setParent(QOBJ.at(a[1]));
    } else if (f == "qconn") {
        const int cid = a[0], j = a[2], qi = a[3], tmpl = a[5];
        auto sg = S.get(a[1]);
        receiver* r = nullptr;
        bool slot = false;
        {
            vs::quiet_scope qs;
            auto it = QOBJ.find(j);
            r = it == QOBJ.end() ? nullptr : it->second;
            if (r && sg) {
                CSIG[cid] = a[1];
                QOCONN[j].push_back(cid);
                slot = !r->f && cid % 2 == 0;
            }
        }
        if (!r || !sg) {
            return true;
        }
        auto qp = Q.get(qi);
        if (!qp) {
            return true;
        }
        xd::queue q(*qp);
        qp.reset();
        std::function<void(int)> fn = [cid, qi, tmpl](int v) {
            exec_scope sc("sg", qi, cid, v);
            run_body(tmpl, v);
        };
        if (slot) {
            r->f = new std::function<void(int)>(fn);
        }
        const auto m = a[4] == 0 ? xd::notification_mode::batch_updates
                                 : xd::notification_mode::single_updates;
        EV("sc", ",%d,%d,%d,%d", cid, a[1], qi, a[4]);
        EV("qo", ",%d,%d", cid, j);
        if (auto* s1 = dynamic_cast<sig1*>(sg.get())) {
            if (slot) {
                xd::qt5::connect(*s1->s, r, &receiver::on1, q, m);
            } else {
                const sig1::type::functor g = [fn](int v, std::string t) {
                    fn(t == std::to_string(v) ? v : -1);
                };
                xd::qt5::connect(*s1->s, static_cast<QObject*>(r), g, q, m);
            }
        } else if (auto* s2 = dynamic_cast<sig2*>(sg.get())) {
            if (slot) {
                xd::qt5::connect(*s2->s, r, &receiver::on2, q, m);
            } else {
                const sig2::type::functor g = [fn](nodef n) { fn(n.get()); };
                xd::qt5::connect(*s2->s, static_cast<QObject*>(r), g, q, m);
            }
        }
        EV("scr", ",%d", cid);
    } else if (f == "qreg") {
        auto c = C.get(a[1]);
        receiver* r = nullptr;
        {
            vs::quiet_scope qs;
            auto it = QOBJ.find(a[0]);
            r = it == QOBJ.end() ? nullptr : it->second;
            if (r && c) {
                QOCONN[a[0]].push_back(a[1]);
            }
        }
        if (r && c) {
            EV("qo", ",%d,%d", a[1], a[0]);
            xd::qt5::register_connection(r, *c);
        }
    } else if (f == "qdisc") {
        auto sg = S.get(a[1]);
        receiver* r = nullptr;
        {
            vs::quiet_scope qs;
            auto it = QOBJ.find(a[0]);
            r = it == QOBJ.end() ? nullptr : it->second;
        }
        if (r && sg) {
            qt_disconnects(qt_take(a[0], a[1]), [&] {
                if (auto* s1 = dynamic_cast<sig1*>(sg.get())) {
                    xd::qt5::disconnect(*s1->s, r);
                } else if (auto* s2 = dynamic_cast<sig2*>(sg.get())) {
                    xd::qt5::disconnect(*s2->s, r);
                }
            });
        }
    } else if (f == "qdel") {
        receiver* r = nullptr;
        {
            vs::quiet_scope qs;
            auto it = QOBJ.find(a[0]);
            if (it != QOBJ.end()) {
                r = it->second;
                QOBJ.erase(it);
            }
        }
        if (r) {
            qt_disconnects(qt_end(a[0]), [&] { delete r; });
        }
    } else {
        return false;
    }
    return true;
}
