"""Generators of test programs (environments of the library), one family per
component of the contract. Every generator is a function of a random source and
yields only legal programs: everything a program waits for is bound to happen
if the library keeps its promises.

The statement language is documented in harness/interp.cpp.
"""
import random
import re

SERIAL = ("serial", "main", "cserial", "wserial", "waitable", "qserial")


QT = False  # generators choose queues of Qt instead


def qt(f):
    """the same programs over queues of Qt"""
    def g(r, name):
        global QT
        QT = True
        try:
            return f(r, name)
        finally:
            QT = False
    return g


class Prog:
    def __init__(self, name, threads=None, rng=None):
        self.r = rng
        self.name = name
        self.cfg = {"threads": threads or 1}
        self.queues, self.pools, self.groups, self.managers = {}, {}, [], []
        self.signals, self.socks, self.gtype = {}, [], {}
        self.qthreads, self.qpools = {}, {}
        self.elastic = {} # pools which add threads for blocked ones
        self.ops, self.threads = {}, {}
        self.init, self.final = [], []
        self.execs = None
        self.n = {}

    def new(self, kind):
        self.n[kind] = self.n.get(kind, -1) + 1
        return self.n[kind]

    def queue(self, kind, prio=3, arg=-1, late=False):
        i = self.new("q")
        self.queues[i] = (kind, prio, arg, late)
        if kind == "main":
            if QT and self.r.random() < .7:
                self.cfg["qapp"] = 1
            self.execs = self.thread([])
        return i

    def qthread(self):
        i = self.new("qt")
        late = self.r.random() < .15
        self.qthreads[i] = 0 if late else 1
        self.cfg["qapp"] = 1 # QThread's event loop needs an application
        if late:
            self.thread(["sleep %d" % self.r.choice([0, 1, 10]), "qstart %d" % i])
        return i

    def qpool(self, threads=1):
        i = self.new("qp")
        self.qpools[i] = threads
        return i

    def pool(self, workers=1):
        i = self.new("p")
        self.pools[i] = workers
        return i

    def group(self):
        i = self.new("g")
        self.groups.append(i)
        return i

    def manager(self):
        i = self.new("m")
        self.managers.append(i)
        return i

    def signal(self, kind=0, group=-1):
        i = self.new("s")
        self.signals[i] = (kind, group)
        return i

    def sock(self):
        i = self.new("k")
        self.socks.append(i)
        return i

    def op(self, body=()):
        i = self.new("o")
        self.ops[i] = list(body)
        return i

    def thread(self, body):
        i = self.new("t")
        self.threads[i] = list(body)
        return i

    def gate(self):
        return self.new("gate") % 60

    def qkind(self, q):
        return self.queues[q][0]

    def text(self):
        if self.execs is not None:
            # with an application it is the application which executes main
            self.threads[self.execs] = [] if self.cfg.get("qapp") else ["exec"]
        o = ["program " + self.name]
        o.append("cfg " + " ".join("%s %d" % kv for kv in sorted(self.cfg.items())))
        for i, w in self.pools.items():
            o.append("pool %d %d %d" % (i, w, self.elastic.get(i, 0)))
        for i, n in self.qthreads.items():
            o.append("qthread %d %d" % (i, n))
        for i, n in self.qpools.items():
            o.append("qpool %d %d" % (i, n))
        for i, (k, p, a, late) in self.queues.items():
            o.append("queue %d %s %d %d" % (i, k, -1 if late else p, a))
        for g in self.groups:
            o.append("group %d %d" % (g, self.gtype.get(g, 0)))
        for m in self.managers:
            o.append("manager %d" % m)
        for i, (k, g) in self.signals.items():
            o.append("signal %d %d %d" % (i, k, g))
        for k in self.socks:
            o.append("sock %d %d" % (k, 1 if self.r and self.r.random() < .2 else 0))
        for i, b in self.ops.items():
            o += ["op %d" % i] + b + ["end"]
        for i, b in self.threads.items():
            o += ["thread %d" % i] + b + ["end"]
        if self.init:
            o += ["init"] + self.init + ["end"]
        if self.final:
            o += ["final"] + self.final + ["end"]
        o.append("endprogram")
        return "\n".join(o) + "\n"


def any_queue(p, r, kinds):
    k = r.choice(kinds)
    if QT and r.random() < .8:
        k = {"serial": "qserial", "cserial": "qserial", "global": "qpar", "cpar": "qpar"}.get(k, k)
    if k == "main" and any(q[0] == "main" for q in p.queues.values()):
        k = "serial"
    if k == "global":
        return p.queue("global", r.randrange(5))
    if k == "serial":
        return p.queue("serial", r.randrange(5))
    if k == "main":
        return p.queue("main")
    if k in ("cserial", "cpar"):
        pool = r.choice(list(p.pools)) if p.pools and r.random() < .5 else p.pool(r.choice([1, 1, 2]))
        return p.queue(k, r.randrange(5), pool)
    if k == "qserial":
        t = r.choice(list(p.qthreads)) if p.qthreads and r.random() < .4 else p.qthread()
        return p.queue(k, 3, t)
    if k == "qpar":
        pool = r.choice(list(p.qpools)) if p.qpools and r.random() < .6 else p.qpool(r.choice([1, 1, 2, 3]))
        return p.queue(k, r.randrange(5), pool)
    if k == "wserial":
        return p.queue("wserial", r.randrange(5))
    if k == "waitable":
        inner = any_queue(p, r, ["global", "serial", "cserial", "main"])
        return p.queue("waitable", 3, inner)
    raise ValueError(k)


def submit(p, r, q, op, groups):
    if groups and r.random() < .3:
        return "gasync %d %d %d" % (r.choice(groups), q, op)
    return "async %d %d" % (q, op)


ALLQ = ["serial", "serial", "global", "global", "main", "cserial", "cpar"]


# ------------------------------------------------------------------ operations
def g_exec(r, name, kinds=ALLQ, nq=None, drops=True, gates=True, afters=False,
           applies=False, groups=0, notifies=False):
    p = Prog(name, r.choice([1, 1, 2, 3]), r)
    qs = [any_queue(p, r, kinds) for _ in range(nq or r.choice([1, 1, 2, 3]))]
    gs = [p.group() for _ in range(groups)]
    leafs = [p.op() for _ in range(2)]
    if r.random() < .3:
        leafs.append(p.op(["sleep %d" % r.choice([0, 1, 20])]))
    if r.random() < .3:
        leafs.append(p.op(["point", "point"]))
    mids = []
    for _ in range(r.choice([0, 1, 1, 2])):
        b = []
        for _ in range(r.choice([1, 1, 2])):
            b.append(submit(p, r, r.choice(qs), r.choice(leafs), gs))
        mids.append(p.op(b))
    opener = []
    if gates and r.random() < .4:
        g = p.gate()
        blockers = [p.op(["await %d 1" % g])]
        opener = ["sleep %d" % r.choice([0, 10, 10, 40000]), "up %d" % g]
        mids += blockers
    tops = leafs + mids
    nthreads = r.choice([1, 1, 2, 2, 3])
    if drops:
        nthreads = min(nthreads, 3)
    users = []
    done = p.gate()
    for _ in range(nthreads):
        b = []
        for _ in range(r.choice([1, 2, 3, 3, 4, 6])):
            x = r.random()
            q = r.choice(qs)
            if afters and x < .2:
                b.append("after %d %d %d" % (q, r.choice([0, 1, 10, 50]), r.choice(tops)))
            elif applies and x < .35 and p.qkind(q) != "main":
                b.append("apply %d %d %d" % (q, r.choice([0, 1, 2, 3, 5]), r.choice(leafs)))
            elif notifies and gs and x < .5:
                b.append("notify %d %d %d" % (r.choice(gs), q, r.choice(leafs)))
            else:
                b.append(submit(p, r, q, r.choice(tops), gs))
            if r.random() < .08:
                b.append("sleep %d" % r.choice([1, 10, 31000]))
            if r.random() < .1:
                b.append("point")
        users.append(b)
    if opener:
        users.append(opener)
    if drops and r.random() < .5:
        # whoever is through last drops the handles
        for b in users:
            b.append("up %d" % done)
        n = len(users)
        # operations which submit need the handles as well
        d = ["await %d %d" % (done, n)]
        victims = [q for q in qs if r.random() < .7]
        for q in victims:
            d.append("dropq %d" % q)
        for g in gs:
            if r.random() < .7:
                d.append("dropg %d" % g)
        for k in p.pools:
            if r.random() < .5:
                d.append("dropp %d" % k)
        r.shuffle(d[1:])
        users.append(d)
    for b in users:
        p.thread(b)
    for q in qs:
        p.final.append("dropq %d" % q)
    for g in gs:
        p.final.append("dropg %d" % g)
    for k in p.pools:
        p.final.append("dropp %d" % k)
    return p


def g_fifo(r, name, kinds=("serial", "serial", "main", "cserial")):
    """many submitters of one serial queue, long backlogs"""
    p = Prog(name, r.choice([1, 2]), r)
    q = any_queue(p, r, list(kinds))
    leaf = p.op()
    slow = p.op(["point", "point", "point"])
    sub = p.op(["async %d %d" % (q, leaf)])
    other = p.queue("global", 3)
    hop = p.op(["async %d %d" % (q, leaf), "async %d %d" % (q, slow)])
    for _ in range(r.choice([2, 2, 3])):
        b = []
        for _ in range(r.choice([2, 4, 7, 12])):
            x = r.random()
            if x < .7:
                b.append("async %d %d" % (q, r.choice([leaf, leaf, slow, sub])))
            else:
                b.append("async %d %d" % (other, hop))
        if r.random() < .3:
            b.insert(r.randrange(len(b)), "sleep %d" % r.choice([1, 31000]))
        p.thread(b)
    if r.random() < .4:
        p.final.append("dropq %d" % q)
    return p


def g_idle(r, name):
    """threads expire while work arrives"""
    p = Prog(name, r.choice([1, 1, 2]), r)
    qs = [p.queue("global", r.randrange(5)), p.queue("serial", 3)]
    leaf = p.op()
    nest = p.op(["async %d %d" % (qs[0], leaf)])
    for i in range(r.choice([1, 2, 3])):
        b = []
        for _ in range(r.choice([1, 2, 3])):
            b.append("async %d %d" % (r.choice(qs), r.choice([leaf, nest])))
            if r.random() < .8:
                b.append("sleep %d" % r.choice([30000, 30000, 30000, 29999, 30001, 60000]))
        p.thread(b)
    return p


def g_apply(r, name):
    p = Prog(name, r.choice([1, 1, 2]), r)
    gq = p.queue("global", r.randrange(5))
    gq2 = p.queue("global", r.randrange(5))
    sq = p.queue("serial", 3)
    qs = [gq, gq2, sq]
    if r.random() < .4:
        qs.append(any_queue(p, r, ["cserial", "cpar", "wserial", "wserial", "waitable"]))
    leaf = p.op(["point"] if r.random() < .3 else [])
    cnt = lambda: r.choice([0, 1, 2, 3, 4, 8])
    # nested to some depth; each level on a parallel queue or from another queue
    inner = p.op(["apply %d %d %d" % (r.choice([gq, gq2]), r.choice([1, 2, 3]), leaf)])
    inner2 = p.op(["apply %d %d %d" % (r.choice([gq, gq2]), r.choice([1, 2, 3]), inner)])
    toserial = p.op(["apply %d %d %d" % (r.choice(qs[2:]), r.choice([1, 2, 3]), leaf)])
    bodies = [leaf, leaf, inner, inner2, toserial]
    for _ in range(r.choice([1, 1, 2, 3])):
        b = []
        for _ in range(r.choice([1, 2])):
            x = r.random()
            if x < .5:
                b.append("apply %d %d %d" % (r.choice([gq, gq2]), cnt(), r.choice(bodies)))
            elif x < .7:
                b.append("apply %d %d %d" % (r.choice(qs[2:]), cnt(), r.choice([leaf, inner])))
            elif x < .85:
                b.append("async %d %d" % (r.choice([gq, gq2]), r.choice([inner, inner2, toserial])))
            else:
                b += ["async %d %d" % (r.choice([qs[-1], r.choice(qs)]), leaf)] * r.choice([1, 2])
                if r.random() < .4:
                    b.append("sleep 1")
                if r.random() < .5:
                    b.append("apply %d %d %d" % (qs[-1], r.choice([1, 2, 3]), leaf))
        p.thread(b)
    if r.random() < .3:  # from an operation of a serial queue
        hop = p.op(["apply %d %d %d" % (gq, r.choice([1, 3]), leaf)])
        s2 = p.queue("serial", 3)
        p.thread(["async %d %d" % (s2, hop), "async %d %d" % (s2, hop)])
    return p


def g_after(r, name):
    p = Prog(name, r.choice([1, 1, 2]), r)
    qs = [any_queue(p, r, ["serial", "global", "main", "cserial", "cpar", "wserial", "waitable"])
          for _ in range(r.choice([1, 2]))]
    leaf = p.op()
    slow = p.op(["sleep %d" % r.choice([1, 5, 20])])
    again = p.op(["after %d %d %d" % (r.choice(qs), r.choice([0, 5, 20]), leaf)])
    done = p.gate()
    n = r.choice([1, 1, 2])
    for _ in range(n):
        b = []
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .7:
                b.append("after %d %d %d" % (r.choice(qs), r.choice([0, 0, 1, 5, 20, 20, 40]),
                                             r.choice([leaf, slow, again])))
            else:
                b.append("async %d %d" % (r.choice(qs), r.choice([leaf, slow])))
            if r.random() < .15:
                b.append("sleep 5")
        b.append("up %d" % done)
        p.thread(b)
    if r.random() < .6:
        b = ["await %d %d" % (done, n)]
        b += ["dropq %d" % q for q in qs] + ["dropp %d" % k for k in p.pools]
        p.thread(b)
    p.final = ["dropq %d" % q for q in p.queues] + ["dropp %d" % k for k in p.pools]
    return p


# ---------------------------------------------------------------------- groups
def g_group(r, name, notify=.35):
    p = Prog(name, r.choice([1, 1, 2]), r)
    qs = [any_queue(p, r, ["serial", "global", "global", "cserial", "main"])
          for _ in range(r.choice([1, 2]))]
    gs = [p.group() for _ in range(r.choice([1, 1, 2]))]
    leaf = p.op()
    slow = p.op(["sleep %d" % r.choice([1, 10, 30])])
    grow = p.op(["gasync %d %d %d" % (r.choice(gs), r.choice(qs), leaf)])
    ops = [leaf, leaf, slow, grow]
    gate = None
    if r.random() < .4:
        gate = p.gate()
        ops.append(p.op(["await %d 1" % gate]))
    T = lambda: r.choice([-1, -1, -1, -2, 0, 1, 20, 100])
    done = p.gate()
    n = r.choice([1, 2, 2, 3])
    for _ in range(n):
        b = []
        for _ in range(r.choice([2, 3, 4, 6])):
            x = r.random()
            g = r.choice(gs)
            if x < .5:
                b.append("gasync %d %d %d" % (g, r.choice(qs), r.choice(ops)))
            elif x < .5 + notify * .5:
                b.append("notify %d %d %d" % (g, r.choice(qs), r.choice([leaf, leaf, grow])))
            elif x < .9:
                b.append("gwait %d %d" % (g, T()))
            elif x < .95:
                b.append("sleep %d" % r.choice([1, 15]))
            else:
                b.append("async %d %d" % (r.choice(qs), leaf))
        b.append("up %d" % done)
        p.thread(b)
    if gate is not None:
        p.thread(["sleep %d" % r.choice([0, 5, 50]), "up %d" % gate])
    if r.random() < .3:
        p.thread(["await %d %d" % (done, n)] + ["dropg %d" % g for g in gs]
                 + ["dropq %d" % q for q in qs if r.random() < .5])
    p.final = ["dropg %d" % g for g in gs] + ["dropq %d" % q for q in qs] + \
              ["dropp %d" % k for k in p.pools]
    return p


def g_reused(r, name):
    """a group is used again before its notification: what is added later waits
    for the notification, which waits for what was there before only"""
    p = Prog(name, r.choice([1, 1, 2]), r)
    qs = [any_queue(p, r, ["serial", "global", "cserial", "main"]) for _ in range(r.choice([1, 2]))]
    qn = any_queue(p, r, ["serial", "global", "cserial", "main"])
    ql = p.queue("global", 3)
    g, done = p.group(), p.gate()
    leaf, tell = p.op(), p.op(["up %d" % done])
    slow = p.op(["sleep %d" % r.choice([1, 10, 30])])
    later = p.op(["await %d 1" % done])
    b = ["gasync %d %d %d" % (g, r.choice(qs), r.choice([leaf, leaf, slow]))
         for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if r.random() < .2:
        b.append("gwait %d %d" % (g, r.choice([-1, 0, 5])))
    b.append("notify %d %d %d" % (g, qn, tell))
    if r.random() < .3:
        b.append(r.choice(["sleep 1", "sleep 15", "async %d %d" % (r.choice(qs), leaf)]))
    b += ["gasync %d %d %d" % (g, ql, later) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < .5:
        b.append("notify %d %d %d" % (g, qn, leaf))
    if r.random() < .5:
        b.append("gwait %d %d" % (g, r.choice([-1, -2, 20])))
    p.thread(b)
    if r.random() < .3:
        p.thread([r.choice(["gwait %d 0" % g, "gwait %d 7" % g, "gasync %d %d %d" % (g, r.choice(qs), leaf)])])
    p.final = ["dropg %d" % g] + ["dropq %d" % q for q in set(qs + [qn])] + \
              ["dropp %d" % k for k in p.pools]
    return p


def g_gtimed(r, name):
    """waits with timeouts while the group was already waited for and notified"""
    p = Prog(name, 1, r)
    qs = [any_queue(p, r, ["global", "global", "serial", "cpar"]) for _ in range(r.choice([1, 2, 2]))]
    g = p.group()
    leaf = p.op()
    D = [r.choice([2, 5, 10, 20, 30]) for _ in range(3)]
    ops = [p.op(["sleep %d" % d]) for d in D]
    done = p.gate()
    n = r.choice([1, 1, 2])
    for _ in range(n):
        b = []
        for _ in range(r.choice([2, 2, 3])):
            for _ in range(r.choice([1, 1, 2])):
                b.append("gasync %d %d %d" % (g, r.choice(qs), r.choice(ops)))
            x = r.random()
            if x < .5:
                b.append("notify %d %d %d" % (g, r.choice(qs), leaf))
            elif x < .8:
                b.append("gwait %d %d" % (g, r.choice([0, 1, 3])))
        b.append("gwait %d %d" % (g, r.choice([3, 8, 15, 25, 40])))
        if r.random() < .5:
            b.append("gwait %d %d" % (g, r.choice([3, 10, -1])))
        b.append("up %d" % done)
        p.thread(b)
    return p


def g_nested(r, name):
    """operations wait for operations, at some depth (C16, C06)"""
    p = Prog(name, r.choice([1, 1, 1, 2]), r)
    depth = r.choice([1, 2, 3, 4, 5])
    q = [p.queue("global", r.randrange(5)) for _ in range(2)]
    s = p.queue("serial", r.randrange(5))
    gs = [p.group() for _ in range(depth)]
    leaf = p.op(["point"] * r.choice([0, 0, 2]))
    cur = leaf
    for d in range(depth - 1, -1, -1):
        g = gs[d]
        body = []
        for i in range(r.choice([1, 1, 2, 3])):
            tgt = r.choice(q + ([s] if cur == leaf else []))
            x = r.random()
            if x < .65:
                body.append("gasync %d %d %d" % (g, tgt, cur))
            else:
                body.append("apply %d %d %d" % (r.choice(q), r.choice([1, 2, 3]), cur))
        body.append("gwait %d %d" % (g, r.choice([-1, -1, -2])))
        if r.random() < .3:
            body.append("async %d %d" % (r.choice(q), leaf))
        cur = p.op(body)
    gate = p.gate()
    blk = p.op(["await %d 1" % gate])
    for _ in range(r.choice([1, 1, 2])):
        b = []
        for _ in range(r.choice([1, 1, 2, 3])):
            b.append("async %d %d" % (r.choice(q), r.choice([cur, cur, leaf])))
            if r.random() < .2:
                b.append("sleep %d" % r.choice([1, 30000]))
        p.thread(b)
    if r.random() < .5:
        k = r.randrange(1, 2 * p.cfg["threads"] + 1)
        p.thread(["async %d %d" % (r.choice(q), blk) for _ in range(k)]
                 + ["async %d %d" % (r.choice(q), leaf), "sleep 100", "up %d" % gate])
    return p


def g_starve(r, name):
    """all but some threads of the pool are occupied; the rest has to do (C16)"""
    n = r.choice([1, 1, 2])
    p = Prog(name, n, r)
    q = [p.queue("global", r.randrange(5)) for _ in range(2)]
    s = [p.queue("serial", r.randrange(5)) for _ in range(2)]
    gate = p.gate()
    blk = p.op(["await %d 1" % gate])
    leaf = p.op()
    g = p.group()
    wt = p.op(["gwait %d -1" % g])
    tm = None
    b = []
    if r.random() < .4:
        b += ["async %d %d" % (q[0], leaf)] * r.choice([1, 2, 3]) + ["sleep %d" % r.choice([1, 29999, 30000, 30001])]
    busy = r.randrange(0, 2 * n + 1)
    pre = []
    if r.random() < .5:  # blocked in a group wait: an extra thread each
        pre.append("gasync %d %d %d" % (g, q[0], blk))
        busy = min(busy + 1, 2 * n)
        pre += ["async %d %d" % (r.choice(q), wt)] * r.choice([1, 2, 3])
    if r.random() < .3:
        pre += ["after %d %d %d" % (r.choice(q + s), r.choice([5, 50, 500]), leaf)] * r.choice([1, 2, 3])
    if r.random() < .3:
        pre += ["tnew 0 100 %d %d" % (r.choice(q), leaf), "tres 0 %d" % r.choice([0, 50])]
        tm = 0
    pre += ["async %d %d" % (r.choice(q), blk)] * busy
    r.shuffle(pre)
    if tm is not None:
        pre = [x for x in pre if not x.startswith("t")] + [x for x in pre if x.startswith("tnew")] + \
              [x for x in pre if x.startswith("tres")]
    b += pre
    if r.random() < .7:
        b.append("sleep %d" % r.choice([0, 1, 5, 60, 29999, 30000]))
    more = ["async %d %d" % (r.choice(q + s), leaf) for _ in range(r.choice([1, 2, 3, 5]))]
    if r.random() < .5:
        p.thread(["sleep %d" % r.choice([0, 1, 5])] + more)
    else:
        b += more
    b += ["sleep %d" % r.choice([1, 70, 400])]
    if tm is not None:
        b += ["tcan 0"]
    b += ["up %d" % gate]
    p.thread(b)
    return p


def g_prio(r, name):
    """one free thread, a backlog of mixed priorities (C18)"""
    n = r.choice([1, 1, 2])
    p = Prog(name, n, r)
    q = [p.queue("global", i) for i in range(5)]
    s = [p.queue(r.choice(["serial", "serial", "wserial"]), i) for i in range(5)]
    leaf = p.op()
    g0, g1 = p.gate(), p.gate()
    blk = p.op(["await %d 1" % g0])
    hold = p.op(["await %d 1" % g1])
    sub = p.op(["async %d %d" % (r.choice(q + s), leaf), "async %d %d" % (r.choice(q), leaf)])
    b = ["async %d %d" % (r.choice(q), blk) for _ in range(2 * n - 1)]
    b += ["async %d %d" % (r.choice(q), hold), "sleep 1"]
    pool = q + (s if r.random() < .6 else [])
    for _ in range(r.choice([3, 5, 8, 13])):
        b.append("async %d %d" % (r.choice(pool), r.choice([leaf, leaf, leaf, sub])))
    b += ["up %d" % g1, "sleep 10", "up %d" % g0]
    p.thread(b)
    if r.random() < .5:
        p.thread(["async %d %d" % (r.choice(q), leaf) for _ in range(3)])
    return p


# ---------------------------------------------------------------------- timers
def g_timer(r, name, cancel=.5):
    p = Prog(name, r.choice([1, 1, 2]), r)
    qk = ["serial", "global", "main", "cserial", "cpar", "wserial"]
    nt = r.choice([1, 1, 1, 2])
    leaf = p.op()
    shared = any_queue(p, r, qk)
    stop = []
    for k in range(nt):
        q = shared if r.random() < .6 else any_queue(p, r, qk)
        iv = r.choice([0, 5, 10, 10, 20])
        h = []
        x = r.random()
        if x < .25:
            h.append("sleep %d" % r.choice([1, 5, 15, 25]))
        if x > .85:
            h.append("point")
        # fail safe: ends the timer after some calls
        h.append("at %d %s" % (r.choice([2, 3, 4, 6]), "tcan %d" % k))
        y = r.random()
        if y < .12:
            h.insert(0, "at %d tsus %d" % (r.choice([1, 2]), k))
        elif y < .2 and iv:
            h.insert(0, "at %d tint %d %d" % (r.choice([1, 2]), k, r.choice([3, 30])))
        elif y < .32:
            i = r.choice([1, 2])
            h[0:0] = ["at %d tsus %d" % (i, k), "at %d tres %d %d" % (i, k, r.choice([0, 10]))]
        inhandler = y < .32 and "tsus" in " ".join(h)
        h_op = p.op(h)
        b = ["tnew %d %d %d %d" % (k, iv, q, h_op)]
        if r.random() < .1:
            b.append("sleep 5")
        b.append("tres %d %d" % (k, r.choice([0, 0, 5, 20])))
        nest = r.random() < .25
        if nest:
            if r.random() < .3:
                b.append("sleep %d" % r.choice([0, 3, 10]))
            b.append("tres %d %d" % (k, r.choice([0, 7])))
        if iv and r.random() < .3:
            b += ["sleep %d" % r.choice([0, 7, 12]), "tint %d %d" % (k, r.choice([3, 30]))]
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            if inhandler:
                break
            b.append("sleep %d" % r.choice([0, 0, 1, 3, 5, 10, 12, 20, 25]))
            twice = nest and r.random() < .4
            b += ["tsus %d" % k] * (1 + twice)
            if r.random() < .5:
                b.append("sleep %d" % r.choice([0, 1, 3, 5, 10, 20]))
            if r.random() < .2:
                b += ["async %d %d" % (q, leaf)]
            b += ["tres %d %d" % (k, r.choice([0, 0, 3, 10, 20]))] * (1 + twice)
        end = r.random()
        b.append("sleep %d" % r.choice([0, 5, 10, 22, 40]))
        # a handle may be dropped once the timer ends by itself
        ends = iv == 0 and not inhandler
        if end < cancel:
            ends = True
            b.append("tcan %d" % k)
            if r.random() < .3:
                b += ["tres %d 0" % k, "sleep 30"]
        elif end < .8 and not inhandler:
            b += ["tsus %d" % k] * (1 + nest)
            ends = True
        if ends and r.random() < .4:
            b.append("dropt %d" % k)
        p.thread(b)
        if r.random() < cancel:
            ncan = r.choice([1, 1, 2])
            for _ in range(ncan):
                c = ["sleep %d" % r.choice([0, 1, 5, 10, 20, 30]), "tcan %d" % k]
                if r.random() < .3:
                    # cancelled from an operation of the target queue
                    o = p.op(["tcan %d" % k])
                    c[1] = "async %d %d" % (q, o)
                p.thread(c)
        if r.random() < .3:
            p.thread(["sleep %d" % r.choice([0, 5, 10]), "async %d %d" % (q, p.op(["sleep %d" % r.choice([3, 12, 30])]))])
        p.final.append("tcan %d" % k)
        p.final.append("dropt %d" % k)
    p.final += ["dropq %d" % q for q in p.queues] + ["dropp %d" % k for k in p.pools]
    return p


# -------------------------------------------------------------------- notifiers
def g_notifier(r, name, cancel=.5, close=.15):
    p = Prog(name, r.choice([1, 1, 2]), r)
    q = any_queue(p, r, ["serial", "global", "main", "cserial", "cpar"])
    s = p.sock()
    leaf = p.op()
    k = 0
    read = r.random() < .7
    h = []
    if r.random() < .2:
        h.append("sleep %d" % r.choice([1, 10]))
    if read:
        lazy = r.choice([1, 1, 1, 2])
        if lazy == 1:
            h.append("sdrain %d 0" % s)
        else:
            h += ["at 1 sdrain %d 1" % s] + ["at %d sdrain %d 0" % (i, s) for i in range(2, 9)]
    else:
        h += ["at %d sfill %d" % (i, s) for i in range(r.choice([1, 2]), 9)]
    h.append("at 7 ncan %d" % k)
    y = r.random()
    inh = False
    if y < .1:
        h.append("at %d ncan %d" % (r.choice([1, 2]), k))
    elif y < .25:
        i = r.choice([1, 2])
        h += ["at %d nsus %d" % (i, k), "at %d nres %d" % (i, k)]
        inh = True
    elif y < .3:
        h += ["at %d nsus %d" % (r.choice([1, 2]), k)]
        inh = True
    op = p.op(h)
    b = ["nnew %d %d %d %d %d" % (k, s, 0 if read else 1, q, op)]
    feed = (lambda: "swrite %d %d" % (s, r.choice([1, 2]))) if read else (lambda: "sempty %d" % s)
    if r.random() < .3:
        b.append(feed())
    if not read and r.random() < .4:
        b.insert(1, "swrite %d 1" % s) # something to be read does not make it writable
    b.append("nres %d" % k)
    nest = r.random() < .25
    if nest:
        b.append("nres %d" % k)
    susp = not inh
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        x = r.random()
        if x < .4:
            b.append(feed())
        elif x < .6:
            b.append("sleep %d" % r.choice([0, 1, 5, 6000]))
        elif susp:
            twice = nest and r.random() < .4
            b += ["nsus %d" % k] * (1 + twice)
            if r.random() < .4:
                b.append(r.choice([feed(), "sleep 1", "sleep 6000", "async %d %d" % (q, leaf)]))
            if nest and not twice and r.random() < .4:
                nest = False # stays at one
            else:
                b += ["nres %d" % k] * (1 + twice)
    closing = False
    if r.random() < .7:
        b.append(feed())
    end = r.random()
    ends = False
    if end < cancel:
        ends = True
        if r.random() < .5:
            b.append("sleep %d" % r.choice([0, 1, 10]))
        b += ["ncan %d" % k]
        if r.random() < .4:
            b += [feed(), "nres %d" % k]
    elif end < cancel + .2 and susp:
        b += ["nsus %d" % k] * (1 + nest) + [feed()]
        ends = True
    elif end < cancel + .2 + close:
        # the peer closes: readable for good, the handler ends it
        p.ops[op] += ["at %d ncan %d" % (i, k) for i in range(3, 7)]
        b += ["sclosepeer %d" % s]
    elif end < cancel + .2 + 2 * close:
        b += ["sleep 5", "sclose %d" % s, "sleep 12000", "ncan %d" % k]
        closing = ends = True
    if ends and r.random() < .4:
        b.append("dropn %d" % k)
    p.thread(b)
    if not closing:
        if r.random() < .5:
            p.thread(["sleep %d" % r.choice([0, 1, 5]), feed(), feed()])
        if r.random() < cancel:
            for _ in range(r.choice([1, 1, 2])):
                c = ["sleep %d" % r.choice([0, 0, 1, 5]), "ncan %d" % k]
                if r.random() < .3:
                    c[1] = "async %d %d" % (q, p.op(["ncan %d" % k]))
                p.thread(c)
        if r.random() < .3:
            p.thread(["async %d %d" % (q, p.op(["sleep %d" % r.choice([3, 12])]))])
    p.final += ["ncan %d" % k, "dropn %d" % k]
    p.final += ["dropq %d" % x for x in p.queues] + ["dropp %d" % x for x in p.pools]
    return p


# ---------------------------------------------------------------------- signals
def g_signal(r, name, modes=(0, 1), disc=0.0, chain=.2, group=.25, skip=0.0, kill=0.0):
    p = Prog(name, r.choice([1, 1, 2]), r)
    qk = ["serial", "serial", "global", "global", "main", "cserial", "wserial"]
    grp = p.group() if r.random() < group else -1
    sig = p.signal(r.choice([0, 0, 1]), grp)
    sigs = [sig]
    if r.random() < chain:
        sigs.append(p.signal(p.signals[sig][0], grp if r.random() < .5 else -1))
        if r.random() < .3:
            sigs.append(p.signal(p.signals[sig][0], -1))
    qs = [any_queue(p, r, qk) for _ in range(r.choice([1, 1, 2]))]
    init = []
    conns = []
    c = 0
    for i in range(1, len(sigs)):
        init.append("chain %d %d %d" % (c, sigs[i - 1], sigs[i]))
        conns.append((c, "chain", sigs[i - 1]))
        c += 1
    ncon = r.choice([1, 2, 2, 3])
    handlers = {}
    for _ in range(ncon):
        s = r.choice(sigs)
        h = []
        if r.random() < .25:
            h.append("sleep %d" % r.choice([1, 5]))
        if r.random() < .15:
            h.append("point")
        if r.random() < .25:
            h.append("at %d emit %d" % (r.choice([1, 2]), r.choice(sigs)))
        op = p.op(h)
        handlers[c] = op
        init.append("conn %d %d %d %d %d" % (c, s, r.choice(qs), r.choice(modes), op))
        conns.append((c, "conn", s))
        c += 1
    late = []
    if r.random() < .3:
        op = p.op()
        late = ["conn %d %d %d %d %d" % (c, r.choice(sigs), r.choice(qs), r.choice(modes), op)]
        handlers[c] = op
        lc = c
        c += 1
    p.init = init
    done = p.gate()
    users = []
    for _ in range(r.choice([1, 1, 2, 2])):
        b = []
        for _ in range(r.choice([1, 2, 3, 5])):
            b.append("emit %d" % r.choice(sigs + [sig]))
            x = r.random()
            if x < .1:
                b.append("sleep %d" % r.choice([1, 10]))
            elif x < .15 and grp >= 0:
                b.append("gwait %d %d" % (grp, r.choice([-1, -1, 20])))
        if grp >= 0 and r.random() < .7:
            b.append("gwait %d -1" % grp)
        users.append(b)
    if late:
        r.choice(users).insert(0, late[0])
    if r.random() < .3:
        users.append(["async %d %d" % (r.choice(qs), p.op(["sleep %d" % r.choice([0, 4])] +
                                                          ["emit %d" % sig] * r.choice([0, 1, 3])))])
    gone = set()
    if disc and r.random() < disc:
        style = r.random()
        if style < .45:
            for _ in range(r.choice([1, 1, 2, 2])):
                cc = r.choice(conns)[0]
                b = ["disc %d" % cc]
                if r.random() < .3:
                    b.insert(0, "sleep %d" % r.choice([0, 1, 3]))
                if r.random() < .3:
                    b.append("emit %d" % sig)
                if r.random() < .2:
                    b.append("disc %d" % cc)
                users.append(b)
        elif style < .65:
            # from inside the handler, possibly while others do the same
            cc = r.choice([x for x in conns if x[1] == "conn"])
            p.ops[handlers[cc[0]]].append("at %d disc %d" % (r.choice([1, 1, 2]), cc[0]))
            if r.random() < .5:
                users.append(["disc %d" % cc[0]])
        elif style < .85:
            cc = r.choice(conns)[0]
            p.init.append("scope 0 %d" % cc)
            b = ["emit %d" % sig] if r.random() < .5 else []
            x = r.random()
            if x < .35:
                b.append("unscope 0")
            elif x < .6 and len(conns) > 1:
                o = r.choice([y[0] for y in conns if y[0] != cc])
                b.append("scope 0 %d" % o)
            elif x < .8 and len(conns) > 1:
                o = r.choice([y[0] for y in conns if y[0] != cc])
                p.init.append("scope 1 %d" % o)
                b.append("movescope 0 1")
                if r.random() < .5:
                    b.append("unscope 1")
            else:
                b += ["takescope 0", "emit %d" % sig]
            b.append("emit %d" % sig)
            users.append(b)
        else:
            m = p.manager()
            for x in conns:
                if r.random() < .7:
                    p.init.append("madd %d %d" % (m, x[0]))
            b = ["emit %d" % sig] if r.random() < .5 else []
            b.append(r.choice(["mreset %d" % m, "mresetw %d %d" % (m, r.choice(sigs)), "mdrop %d" % m]))
            b.append("emit %d" % sig)
            if r.random() < .4:
                # a handler uses the manager as well
                cc = r.choice([x for x in conns if x[1] == "conn"])
                h = p.ops[handlers[cc[0]]]
                h.append("at 1 " + r.choice(["disc %d" % cc[0], "mreset %d" % m,
                                             "madd %d %d" % (m, cc[0])]))
            users.append(b)
    if skip and r.random() < skip:
        s = r.choice(sigs)
        b = ["skip %d" % s]
        if r.random() < .4:
            b.insert(0, "sleep %d" % r.choice([0, 1, 3]))
        if r.random() < .8:
            b.append("emit %d" % r.choice([s, sig]))
        users.append(b)
        if r.random() < .2:
            cc = r.choice([x for x in conns if x[1] == "conn"])
            p.ops[handlers[cc[0]]].append("at 1 skip %d" % cc[2])
    killed = False
    if kill and r.random() < kill and "emit" not in " ".join(
            " ".join(p.ops[o]) for o in p.ops) and "skip" not in " ".join(
            " ".join(p.ops[o]) for o in p.ops) and "mreset" not in " ".join(
            " ".join(p.ops[o]) for o in p.ops) and "disc" not in " ".join(
            " ".join(p.ops[o]) for o in p.ops):
        # the signal ends when nobody uses it any more, with calls still queued
        for b in users:
            b.append("up %d" % done)
        users.append(["await %d %d" % (done, len(users))] + ["sdel %d" % s for s in sigs]
                     + ["disc %d" % x[0] for x in conns if r.random() < .5])
        killed = True
    for b in users:
        p.thread(b)
    if not killed and r.random() < .6:
        p.final += ["emit %d" % sig, "settle 200"]
        p.final += ["sdel %d" % s for s in sigs]
        p.final += ["disc %d" % x[0] for x in conns]
    return p


def g_batch(r, name):
    """emissions while the queue of a batch connection is held"""
    p = Prog(name, 1, r)
    q = any_queue(p, r, ["serial", "serial", "cserial", "main", "wserial"])
    s = p.signal(r.choice([0, 1]))
    a, b = p.gate(), p.gate()
    h = []
    x = r.random()
    if x < .7:
        h += ["at 1 up %d" % a, "at 1 await %d 1" % b]
    if r.random() < .4:
        h.append("at %d emit %d" % (r.choice([1, 1, 2]), s))
    if r.random() < .3:
        h.append("sleep %d" % r.choice([1, 3]))
    p.init = ["conn 0 %d %d 0 %d" % (s, q, p.op(h))]
    if r.random() < .4:
        p.init.append("conn 1 %d %d %d %d" % (s, q, r.choice([0, 1]), p.op()))
    c, d = p.gate(), p.gate()
    hold = p.op((["emit %d" % s] if r.random() < .3 else []) + ["up %d" % c, "await %d 1" % d])
    E = lambda k: ["emit %d" % s] * r.choice(k)
    if x < .7:
        t = ["emit %d" % s, "await %d 1" % a] + E([0, 1, 2]) + ["async %d %d" % (q, hold)] + E([0, 1, 2]) + ["up %d" % b]
    else:
        t = E([0, 1]) + ["async %d %d" % (q, hold)] + E([0, 1, 2])
    t += ["await %d 1" % c] + E([0, 1, 2]) + (["sleep 1"] if r.random() < .3 else [])
    if r.random() < .15:
        t += ["skip %d" % s]
    t += E([0, 1, 2]) + ["up %d" % d] + E([0, 0, 1])
    p.thread(t)
    if r.random() < .3:
        p.thread(E([1, 2]))
    if r.random() < .5:
        p.final = ["emit %d" % s]
    return p


def g_handlers(r, name, objs=False):
    """handlers use connections, managers and objects which end meanwhile"""
    p = Prog(name, r.choice([1, 2]), r)
    qs = [any_queue(p, r, ["serial", "global", "global", "cserial", "cpar", "main"]) for _ in range(r.choice([1, 2]))]
    sigs = [p.signal(r.choice([0, 1])) for _ in range(r.choice([1, 2, 2]))]
    m = p.manager()
    n = r.choice([1, 2, 2, 3])
    ev = p.gate()
    if objs:
        p.init.append("qobj 0")
    csig, hs = {}, {}
    p.conn_op = lambda c: int([st for st in p.init if re.match(r"q?conn %d " % c, st)][0].split()[-1])
    for c in range(n):
        csig[c] = r.choice(sigs)
        hs[c] = p.op(["point"] if r.random() < .3 else [])
        if objs and r.random() < .7:
            p.init.append("qconn %d %d 0 %d %d %d" % (c, csig[c], r.choice(qs), r.choice([0, 1]), hs[c]))
        else:
            p.init.append("conn %d %d %d %d %d" % (c, csig[c], r.choice(qs), r.choice([0, 1]), hs[c]))
            if r.random() < .7:
                p.init.append("madd %d %d" % (m, c))
            elif r.random() < .4 and "scope 0" not in " ".join(p.init):
                p.init.append("scope 0 %d" % c)
    x = r.random()
    sdel = x < .3
    s = r.choice(sigs)
    # handlers must not wait for each other: only one of them ends other connections
    lead = r.randrange(n)
    def act(own):
        acts = ["disc %d" % own] * 3 + ["cq %d" % r.randrange(n)]
        if own == lead:
            acts += ["disc %d" % r.randrange(n), "mreset %d" % m, "mreset %d" % m]
        if not sdel:
            acts += ["emit %d" % s, "skip %d" % s, "madd %d %d" % (m, own)]
            if own == lead:
                acts.append("mresetw %d %d" % (m, s))
        return r.choice(acts)
    for c in range(n):
        if r.random() < .7:
            hs[c] = p.ops[hs[c]]
            hs[c] += ["at 1 up %d" % ev, "sleep %d" % r.choice([0, 1, 2])] + \
                ["at %d %s" % (r.choice([1, 1, 1, 2]), act(c)) for _ in range(r.choice([1, 1, 2]))]
        else:
            p.ops[hs[c]].append("at 1 up %d" % ev)
    b = ["emit %d" % g for g in sigs for _ in range(r.choice([1, 1, 2]))]
    r.shuffle(b)
    if r.random() < .75:
        b.append("await %d %d" % (ev, r.choice([1, 1, min(2, n)])))
    if sdel:
        end = ["sdel %d" % s]
    else:
        end = [r.choice(["mreset %d" % m, "mreset %d" % m, "mresetw %d %d" % (m, s), "mresetw %d %d" % (m, s),
                         "mdrop %d" % m if not any("m" == st.split()[0][0] or " m" in st for o in p.ops.values() for st in o) else "mreset %d" % m,
                         "disc %d" % r.randrange(n), "unscope 0" if "scope 0" in " ".join(p.init) else "disc 0",
                         "qdel 0" if objs else "disc 0"])]
    if not sdel and r.random() < .3:
        # the manager is used by the handler its reset waits for
        c = lead
        if "madd %d %d" % (m, c) not in p.init:
            p.init.append("madd %d %d" % (m, c))
        p.ops[p.conn_op(c)] = ["at 1 up %d" % ev, "sleep %d" % r.choice([1, 2])] + \
            ["at 1 " + r.choice(["mreset %d" % m, "mresetw %d %d" % (m, s)]) for _ in range(r.choice([1, 2]))]
        b = ["emit %d" % csig[c], "await %d 1" % ev]
        end = [r.choice(["mreset %d" % m, "mresetw %d %d" % (m, csig[c])])]
    b += end
    if r.random() < .6:
        b += ["emit %d" % g for g in sigs if not (sdel and g == s)]
    if r.random() < .3:
        b.append(r.choice(["mreset %d" % m, "disc %d" % r.randrange(n)]))
    p.thread(b)
    return p


def g_within(r, name):
    """calls of a connection within each other on one thread, ending from there (C13)"""
    p = Prog(name, r.choice([1, 2]), r)
    side = p.pool(0)
    q = p.queue("cpar", 3, side)
    other = any_queue(p, r, ["serial", "global"])
    s = p.signal(r.choice([0, 1]))
    m = p.manager()
    ends = ["disc 0", "disc 0", "mreset %d" % m, "mresetw %d %d" % (m, s), "unscope 0"]
    h = p.op(["pump %d %d" % (side, r.choice([1, 1, 2]))] +
             ["at %d %s" % (r.choice([1, 1, 2]), r.choice(ends)) for _ in range(r.choice([1, 1, 2]))])
    if r.random() < .3:
        p.ops[h].insert(0, "point")
    p.init = ["conn 0 %d %d %d %d" % (s, q, r.choice([0, 1, 1]), h), r.choice(["madd %d 0" % m, "scope 0 0"])]
    if r.random() < .4:
        p.init.append("conn 1 %d %d 1 %d" % (s, r.choice([q, other]), p.op(["point"])))
    p.thread(["emit %d" % s] * r.choice([2, 3, 4]) + ["pump %d %d" % (side, r.choice([1, 2]))] +
             r.choice([[], ["disc 0"], ["emit %d" % s, "pump %d 2" % side]]))
    if r.random() < .5:
        p.thread([r.choice(["pump %d 2" % side, "disc 0", "emit %d" % s]) for _ in range(r.choice([1, 2]))])
    done = p.gate()
    for b in p.threads.values():
        b.append("up %d" % done)
    p.thread(["await %d %d" % (done, len(p.threads)), "pump %d 99" % side])
    p.final = ["pump %d 99" % side]
    return p


def g_sigdown(r, name):
    """ends of signal, connection and pending calls in any order (C13)"""
    p = Prog(name, r.choice([1, 1, 2]), r)
    q = any_queue(p, r, ["serial", "global", "main", "cserial"])
    s = p.signal(r.choice([0, 1]))
    gate = p.gate()
    hold = p.op(["await %d 1" % gate])
    h = p.op([r.choice(["point", "sleep 1"])] if r.random() < .4 else [])
    p.init = ["conn 0 %d %d %d %d" % (s, q, r.choice([0, 1]), h)]
    if r.random() < .5:
        p.init.append("conn 1 %d %d %d %d" % (s, q, r.choice([0, 1]), h))
    b = []
    blocked = r.random() < .6
    if blocked:
        b += ["async %d %d" % (q, hold), "sleep %d" % r.choice([0, 1])]
    b += ["emit %d" % s] * r.choice([1, 2, 3])
    if r.random() < .3:
        b.append("sleep 0")
    acts = ["sdel %d" % s, "disc 0"]
    if r.random() < .5:
        acts.append("skip %d" % s)
    if r.random() < .4:
        acts.append("disc 0")
    r.shuffle(acts)
    # a deleted signal cannot be skipped: the interpreter ignores that
    b += acts
    b.append("up %d" % gate)
    p.thread(b)
    if blocked and r.random() < .5:
        p.thread(["sleep %d" % r.choice([0, 1, 2]), "up %d" % gate])
    return p


# --------------------------------------------------------------------- barriers
def g_barrier(r, name):
    p = Prog(name, r.choice([1, 1, 2]), r)
    q = any_queue(p, r, ["serial", "global", "main", "cserial"])
    T = lambda: r.choice([-1, -1, -1, -2, 0, 1, 10, 50])
    if r.random() < .5:
        leaf = p.op(["point"])
        p.init = ["bnew 0"]
        nw = r.choice([1, 1, 2, 3])
        for _ in range(nw):
            b = []
            if r.random() < .2:
                b.append("sleep %d" % r.choice([0, 5]))
            for _ in range(r.choice([1, 1, 2])):
                b.append(r.choice(["bwait 0 %d" % T(), "bwait 0 %d" % T(), "bpass 0"]))
            if r.random() < .4:
                b += ["bwait 0 -1", "bpass 0"]
            p.thread(b)
        b = ["async %d %d" % (q, leaf)] * r.choice([0, 1, 2])
        if r.random() < .3:
            b.append("sleep %d" % r.choice([0, 5, 20]))
        b.append(r.choice(["brun 0", "basync 0 %d" % q, "basync 0 %d" % q]))
        if r.random() < .3:
            b.append("bwait 0 -1")
        if r.random() < .2:
            b.append("brun 0" if b[-1] != "x" else "")
        p.thread([x for x in b if x])
        p.final = ["bwait 0 0", "bpass 0", "bdel 0"]
        return p
    s = p.signal(r.choice([0, 0, 1]))
    if r.random() < .4:
        h = p.op()
        p.init.append("conn 0 %d %d %d %d" % (s, q, r.choice([0, 1]), h))
    p.init.append("sbnew 0 %d" % s)
    if r.random() < .3:
        p.init.insert(0, "emit %d" % s)
    if r.random() < .3:
        p.init.append("sbnew 1 %d" % s)
    done = p.gate()
    n = r.choice([1, 1, 2])
    for _ in range(n):
        b = []
        for _ in range(r.choice([1, 2])):
            b.append(r.choice(["bwait 0 %d" % T(), "bwait 0 %d" % T(), "bval 0"]))
        b += ["bwait 0 -1", "bval 0"]
        if r.random() < .5:
            b += ["sleep %d" % r.choice([0, 5]), "bval 0"]
        b.append("up %d" % done)
        p.thread(b)
    for _ in range(r.choice([1, 1, 2])):
        b = ["emit %d" % s] * r.choice([1, 2, 4])
        if r.random() < .3:
            b.insert(0, "sleep %d" % r.choice([0, 5, 20]))
        p.thread(b)
    if r.random() < .6:  # destroyed as soon as the waits returned
        p.thread(["await %d %d" % (done, n), "bdel 0"])
    p.final = ["bval 0", "bval 1", "bdel 0", "bdel 1"]
    return p


def g_barrier_own(r, name):
    """a barrier on the stack of its only waiter"""
    p = Prog(name, 1, r)
    q = any_queue(p, r, ["serial", "global"])
    b = []
    s = p.signal(0)
    for i in range(r.choice([1, 2, 3])):
        if r.random() < .5:
            b += ["sbnew %d %d" % (i, s), "emit %d" % s] + ["emit %d" % s] * r.choice([0, 1]) + \
                 ["bwait %d -1" % i, "bval %d" % i, "bdel %d" % i]
        else:
            b += ["bnew %d" % i, "basync %d %d" % (i, q), "bwait %d -1" % i, "bpass %d" % i, "bdel %d" % i]
    p.thread(b)
    if r.random() < .5:
        p.thread(["emit %d" % s] * 2)
    return p


# --------------------------------------------------------------------- waitable
def g_waitable(r, name):
    p = Prog(name, r.choice([1, 1, 2]), r)
    x = r.random()
    nothread = False
    if x < .35:
        q = p.queue("wserial", r.randrange(5))
    elif x < .5:
        inner = p.queue("cserial" if r.random() < .5 else "cpar", 3, p.pool(0))
        q = p.queue("waitable", 3, inner)
        nothread = True
        p.unserved = inner
    elif x < .6:
        inner = p.queue("global", 3)
        q = p.queue("waitable", 3, inner)
    else:
        inner = any_queue(p, r, ["serial", "cserial", "cpar"])
        q = p.queue("waitable", 3, inner)
    leaf = p.op(["point"] * r.choice([0, 0, 1]))
    slow = p.op(["sleep %d" % r.choice([1, 5])])
    sub = p.op(["async %d %d" % (q, leaf)])
    ops = [leaf, leaf, slow, sub]
    for _ in range(r.choice([1, 2, 2, 3])):
        b = []
        for _ in range(r.choice([1, 2, 3, 5])):
            y = r.random()
            if y < .55:
                b.append("async %d %d" % (q, r.choice(ops)))
            elif y < .75:
                b.append("wone %d" % q)
            elif y < .85:
                b.append("wall %d" % q)
            elif y < .9:
                b.append("sleep %d" % r.choice([0, 2]))
            elif y < .95:
                b.append("apply %d %d %d" % (q, r.choice([0, 1, 2, 3]), leaf))
            else:
                b.append("wone %d" % q)
        if nothread:
            b.append("wall %d" % q)
        p.thread(b)
    if not nothread and r.random() < .3:
        g = p.queue("global", 3)
        p.thread(["async %d %d" % (g, p.op(["async %d %d" % (q, leaf), "wone %d" % q]))])
    if not nothread and r.random() < .25:
        # several are through, another one takes long: one of them is waited for
        gate = p.gate()
        n = r.choice([2, 2, 3])
        p.threads = {}
        p.n["t"] = -1
        p.thread(["async %d %d" % (q, leaf)] * n + ["sleep 1", "async %d %d" % (q, p.op(["await %d 1" % gate]))] +
                 ["wone %d" % q] * r.choice([1, n - 1, n]) + ["up %d" % gate])
        p.thread(["sleep %d" % r.choice([50, 100]), "up %d" % gate])
    if nothread:
        p.final = ["wall %d" % q]
    elif r.random() < .4:
        p.final = ["dropq %d" % q]
    return p


# ------------------------------------------------------------- mixed backends
def g_backends(r, name, real=()):
    """objects of another backend (stubs, or those of Qt), combined freely"""
    p = Prog(name, r.choice([1, 2]), r)
    qs = []
    for _ in range(r.choice([1, 2])):
        qs.append(any_queue(p, r, ["serial", "global", "cserial", "cpar"]))
    own = list(qs)
    for _ in range(r.choice([1, 1, 2])):
        if real and r.random() < .6:
            k = r.choice(real)
            qs.append(p.queue(k, r.randrange(5), p.qthread() if k == "qserial" else p.qpool(r.choice([1, 2]))))
        else:
            qs.append(p.queue("foreign", 3, r.choice(own)))
    if r.random() < .3:
        qs.append(p.queue("waitable", 3, r.choice(qs)))
    gs = [p.group() for _ in range(r.choice([1, 1, 2]))]
    fg = p.group()
    p.gtype[fg] = 1
    gs.append(fg)
    leaf = p.op(["point"] if r.random() < .3 else [])
    k = p.sock() if r.random() < .5 else None
    nt, nn = [0], [0]
    used = []
    for _ in range(r.choice([1, 2, 2])):
        b = []
        for _ in range(r.choice([2, 3, 4, 5])):
            x = r.random()
            q = r.choice(qs)
            if x < .3:
                b.append("gasync %d %d %d" % (r.choice(gs), q, leaf))
            elif x < .45:
                b.append("notify %d %d %d" % (r.choice(gs), q, leaf))
            elif x < .6 and nt[0] < 3:
                t, iq = nt[0], r.choice([x for x in qs if p.qkind(x) in ("serial", "global", "cserial", "cpar", "foreign")])
                nt[0] += 1
                b.append("mtimer %d %d %d %d %d" % (t, r.choice([0, 1]), iq, q, leaf))
                b += ["tres %d %d" % (t, r.choice([0, 3])), "sleep %d" % r.choice([0, 5, 20]), "tcan %d" % t, "dropt %d" % t]
            elif x < .7 and k is not None and nn[0] < 2:
                n, iq = nn[0], r.choice([x for x in qs if p.qkind(x) in ("serial", "global", "cserial", "cpar", "foreign")])
                nn[0] += 1
                b.append("mnotif %d %d %d %d %d %d" % (n, k, r.choice([0, 1]), iq, q, p.op(["sdrain %d 0" % k])))
                b += ["nres %d" % n, "swrite %d 1" % k, "sleep %d" % r.choice([0, 5]), "ncan %d" % n, "dropn %d" % n]
            elif x < .75:
                b.append("qtimer %d" % q)
            elif x < .8 and k is not None:
                b.append("qnotif %d %d" % (q, k))
            elif x < .9:
                b.append("gwait %d %d" % (r.choice(gs), r.choice([0, 20, -1])))
            else:
                b.append("async %d %d" % (q, leaf))
        if r.random() < .4:
            b.append("gwait %d -1" % r.choice(gs))
        p.thread(b)
    if r.random() < .5:
        p.final = ["gwait %d -1" % g for g in gs]
    return p


# --------------------------------------------------------------------------- Qt
def g_qtnest(r, name):
    """operations of a small pool of Qt wait for others of the same pool"""
    p = Prog(name, 1, r)
    pool = p.qpool(r.choice([1, 1, 2]))
    qs = [p.queue("qpar", r.randrange(5), pool) for _ in range(r.choice([1, 2]))]
    if r.random() < .3:
        qs.append(p.queue("qserial", 3, p.qthread()))
    par = [q for q in qs if p.qkind(q) == "qpar"]
    depth = r.choice([1, 1, 2, 3])
    gs = [p.group() for _ in range(depth)]
    leaf = p.op(["point"] * r.choice([0, 0, 2]))
    cur = leaf
    for g in gs:
        b = []
        for i in range(r.choice([1, 1, 2])):
            if r.random() < .6:
                b.append("gasync %d %d %d" % (g, r.choice(par if cur != leaf else qs), cur))
            else:
                b.append("apply %d %d %d" % (r.choice(par), r.choice([1, 2, 3]), cur))
        b.append("gwait %d %d" % (g, r.choice([-1, -1, -2])))
        if r.random() < .3:
            b.append("async %d %d" % (r.choice(qs), leaf))
        cur = p.op(b)
    for _ in range(r.choice([1, 1, 2])):
        b = []
        for _ in range(r.choice([1, 2, 3])):
            b.append("async %d %d" % (r.choice(par), r.choice([cur, cur, leaf])))
            if r.random() < .2:
                b.append("sleep %d" % r.choice([1, 31000]))
        p.thread(b)
    if r.random() < .5:
        # the pool afterwards: as many threads as before
        gate = p.gate()
        blk = p.op(["await %d 1" % gate])
        p.thread(["sleep 200"] + ["async %d %d" % (r.choice(par), blk)] * (p.qpools[pool] - r.choice([0, 1]))
                 + ["async %d %d" % (r.choice(par), leaf), "sleep 100", "up %d" % gate])
    return p


def g_qtprio(r, name):
    n = r.choice([1, 1, 2])
    p = Prog(name, 1, r)
    pool = p.qpool(n)
    q = [p.queue("qpar", i, pool) for i in range(5)]
    leaf = p.op()
    g0, g1 = p.gate(), p.gate()
    blk = p.op(["await %d 1" % g0])
    hold = p.op(["await %d 1" % g1])
    b = ["async %d %d" % (r.choice(q), blk)] * (n - 1) + ["async %d %d" % (r.choice(q), hold), "sleep 1"]
    for _ in range(r.choice([3, 5, 8])):
        b.append("async %d %d" % (r.choice(q), leaf))
    b += ["up %d" % g1, "sleep 10", "up %d" % g0]
    p.thread(b)
    return p


def g_qtobj(r, name):
    """receivers, signals and connections end in any order"""
    p = Prog(name, 1, r)
    qs = [any_queue(p, r, ["serial", "serial", "global", "main"]) for _ in range(r.choice([1, 2]))]
    sigs = [p.signal(r.choice([0, 1])) for _ in range(r.choice([1, 2, 2]))]
    objs = list(range(r.choice([1, 1, 2, 3])))
    p.init = ["qobj %d" % j for j in objs]
    family = len(objs) > 1 and r.random() < .6
    if family:
        p.init = ["qobj 0"] + ["qchild %d %d" % (j, r.choice([0, j - 1])) for j in objs[1:]]
    conns = []
    c = 0
    own = []
    for _ in range(r.choice([1, 2, 3, 4])):
        h = p.op([r.choice(["point", "sleep 1", "sleep 3"])] if r.random() < .4 else [])
        s, j = r.choice(sigs), r.choice(objs)
        x = r.random()
        if x < .75:
            st = ["qconn %d %d %d %d %d %d" % (c, s, j, r.choice(qs), r.choice([0, 1]), h)]
        else:
            st = ["conn %d %d %d %d %d" % (c, s, r.choice(qs), r.choice([0, 1]), h)]
            own.append(c)
            if x < .9:
                st.append("qreg %d %d" % (j, c))
        conns.append((c, s, j, h))
        p.init += st
        c += 1
    done = p.gate()
    users = []
    for _ in range(r.choice([1, 2])):
        b = []
        for _ in range(r.choice([1, 2, 4])):
            b.append("emit %d" % r.choice(sigs))
            if r.random() < .2:
                b.append("sleep %d" % r.choice([0, 1, 5]))
        users.append(b)
    if r.random() < .4:
        # connected by yet another thread
        j = r.choice(objs)
        h = p.op()
        users.append(["qconn %d %d %d %d %d %d" % (c, r.choice(sigs), j, r.choice(qs), r.choice([0, 1]), h),
                      "emit %d" % r.choice(sigs), "up %d" % done])
        c += 1
        late = 1
    else:
        late = 0
    ends = []
    for j in objs:
        x = r.random()
        b = []
        if r.random() < .3:
            b.append("sleep %d" % r.choice([0, 1, 3]))
        if x < .45:
            b.append("qdisc %d %d" % (j, r.choice(sigs)))
            if r.random() < .7:
                b += ["emit %d" % s for s in sigs]
        if own and r.random() < .3:
            b.append("disc %d" % r.choice(own))
        if r.random() < .75:
            b.append("qdel %d" % j)
        if r.random() < .5:
            b.append("emit %d" % r.choice(sigs))
        ends.append(b)
    if family:
        # a parent ends its children: one thread, any order
        r.shuffle(ends)
        ends = [[st for b in ends for st in b]]
    if late:
        # nobody connects to a receiver which ends
        ends = [["await %d 1" % done] + b for b in ends]
    users += ends
    killed = r.random() < .25
    if killed:
        end = p.gate()
        for b in users:
            b.append("up %d" % end)
        users.append(["await %d %d" % (end, len(users))] + ["sdel %d" % s for s in sigs] + ["qdel %d" % j for j in objs])
    for b in users:
        p.thread(b)
    if not killed:
        p.final = ["emit %d" % s for s in sigs] + ["settle 100"] + \
            r.sample(["sdel %d" % s for s in sigs] + ["qdel %d" % j for j in objs], len(sigs) + len(objs))
    return p


# ----------------------------------------------------------------- custom pools
def g_cpool(r, name):
    """operations of custom pools block, pools run items of each other"""
    p = Prog(name, r.choice([1, 1, 2]), r)
    pools = [p.pool(r.choice([1, 1, 2])) for _ in range(r.choice([1, 1, 2]))]
    for k in pools:
        p.elastic[k] = 1
    side = p.pool(0)
    par = [p.queue("cpar", r.randrange(5), k) for k in pools for _ in range(r.choice([1, 2]))]
    ser = [p.queue("cserial", r.randrange(5), r.choice(pools))]
    sideq = [p.queue(r.choice(["cpar", "cpar", "cserial"]), r.randrange(5), side)]
    lib = [p.queue("global", r.randrange(5)), p.queue("serial", 3)]
    sg = p.signal(0) if r.random() < .3 else -1
    leaf = p.op(["point"] * r.choice([0, 0, 2]))
    slow = p.op(["sleep %d" % r.choice([1, 5])])
    depth = r.choice([1, 1, 2])
    gs = [p.group() for _ in range(depth)]
    cur = leaf
    feed = ["async %d %d" % (sideq[0], leaf)]
    if sg >= 0:
        h = p.op(["pump %d 1" % side] if r.random() < .5 else [])
        p.init.append("conn 0 %d %d %d %d" % (sg, sideq[0], r.choice([0, 1, 1]), h))
        p.ops[h] += r.choice([[], ["at 2 disc 0"], ["at 1 disc 0"], ["at 1 disc 0"]])
        if r.random() < .7: # calls of the same connection within each other
            p.ops[h].insert(0, "pump %d 1" % side)
            p.thread(["emit %d" % sg] * r.choice([2, 3, 4]) + ["pump %d 2" % side])
        feed += ["emit %d" % sg] * 2
    for g in gs:
        b = []
        for i in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < .55:
                tgt = r.choice(par + (lib[:1] if True else []) + (ser + lib if cur == leaf else []))
                b.append("gasync %d %d %d" % (g, tgt, r.choice([cur, cur, slow]) if cur == leaf else cur))
            elif x < .8:
                b.append("apply %d %d %d" % (r.choice(par + (ser if cur == leaf and r.random() < .3 else [])), r.choice([0, 1, 2, 3]), cur if r.random() < .4 else leaf))
            else:
                b += [r.choice(feed), "pump %d %d" % (side, r.choice([1, 2]))]
        if r.random() < .3:
            b.append("pump %d 1" % side)
        b.append("gwait %d %d" % (g, r.choice([-1, -1, -2, 0, 10])))
        if r.random() < .2:
            b.append("async %d %d" % (r.choice(par + lib), leaf))
        cur = p.op(b)
    # an apply on the own serial queue cannot get on
    for _ in range(r.choice([1, 2])):
        b = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < .7:
                b.append("async %d %d" % (r.choice(par + lib[:1]), r.choice([cur, cur, leaf])))
            elif x < .85:
                b.append(r.choice(feed))
            else:
                b.append("pump %d %d" % (side, r.choice([1, 3])))
        if r.random() < .3:
            b.append("gwait %d %d" % (r.choice(gs), r.choice([-1, 5])))
        p.thread(b)
    p.thread(["sleep 2000", "pump %d 9" % side, "sleep 2000", "pump %d 9" % side, "sleep 2000", "pump %d 9" % side])
    return p


# ------------------------------------------------------------------ everything
def g_mix(r, name):
    f = r.choice([lambda: g_exec(r, name, afters=True, applies=True, groups=r.choice([0, 1, 2]), notifies=True),
                  lambda: g_group(r, name), lambda: g_nested(r, name), lambda: g_timer(r, name),
                  lambda: g_notifier(r, name), lambda: g_after(r, name), lambda: g_idle(r, name),
                  lambda: g_signal(r, name, disc=.7, skip=.3, kill=.3), lambda: g_sigdown(r, name),
                  lambda: g_barrier(r, name), lambda: g_waitable(r, name), lambda: g_starve(r, name),
                  lambda: g_apply(r, name), lambda: g_prio(r, name), lambda: g_barrier_own(r, name),
                  lambda: g_handlers(r, name), lambda: g_cpool(r, name), lambda: g_within(r, name), lambda: g_gtimed(r, name), lambda: g_batch(r, name)])
    return f()


# property -> [(weight, generator)]
FAMILIES = {
    "C01": [(4, g_exec), (1, g_fifo), (3, g_idle), (1, g_starve),
            (2, lambda r, n: g_exec(r, n, groups=1, applies=True))],
    "C02": [(3, g_fifo), (2, lambda r, n: g_exec(r, n, kinds=["serial", "serial", "main", "cserial"])),
            (1, lambda r, n: g_exec(r, n, kinds=["serial"], afters=True, applies=True))],
    "C03": [(4, lambda r, n: g_exec(r, n, groups=r.choice([0, 1]), afters=True, notifies=True)),
            (2, g_exec), (1, g_after), (1, g_group)],
    "C04": [(1, g_apply)],
    "C05": [(1, g_after)],
    "C06": [(3, g_group), (2, g_gtimed), (1, g_nested)],
    "C07": [(3, lambda r, n: g_group(r, n, notify=.8)), (1, g_reused)],
    "C08": [(1, lambda r, n: g_timer(r, n, cancel=.15))],
    "C09": [(2, lambda r, n: g_timer(r, n, cancel=.9)), (1, lambda r, n: g_notifier(r, n, cancel=.9, close=0))],
    "C10": [(1, lambda r, n: g_notifier(r, n, cancel=.1))],
    "C11": [(3, lambda r, n: g_signal(r, n, modes=(1,))), (1, lambda r, n: g_signal(r, n, disc=.5, chain=.5))],
    "C12": [(2, lambda r, n: g_signal(r, n, modes=(0,))), (1, g_batch)],
    "C13": [(1, g_within), (4, lambda r, n: g_signal(r, n, disc=.9, skip=.25, kill=.2)),
            (1, lambda r, n: g_signal(r, n, disc=0, skip=.9)),
            (1, lambda r, n: g_signal(r, n, disc=.3, kill=1.0)), (2, g_sigdown), (4, g_handlers)],
    "C14": [(3, g_barrier), (1, g_barrier_own)],
    "C15": [(1, g_waitable)],
    "C16": [(2, g_starve), (1, g_nested), (1, g_idle)],
    "C17": [(2, g_exec), (1, lambda r, n: g_exec(r, n, afters=True, applies=True, groups=1, notifies=True)),
            (1, g_timer), (1, g_notifier), (1, g_signal), (1, g_after)],
    "C18": [(3, g_prio), (1, lambda r, n: g_exec(r, n, kinds=["cserial", "cpar"]))],
    "C19": [(1, g_mix)],
    "C20": [(1, g_backends)],
    "C21": [(3, qt(g_exec)), (2, qt(lambda r, n: g_exec(r, n, groups=1, afters=True, applies=True, notifies=True))),
            (2, qt(g_fifo)), (3, qt(g_qtnest)), (2, qt(g_qtprio)), (1, qt(g_after)), (1, qt(g_group)),
            (1, qt(g_timer)), (1, qt(g_notifier)), (1, qt(g_signal)), (1, qt(g_barrier)),
            (1, lambda r, n: g_backends(r, n, ("qserial", "qpar")))],
    "C22": [(4, qt(g_qtobj)), (1, g_qtobj), (2, qt(lambda r, n: g_handlers(r, n, True)))],
    "C23": [(1, g_cpool)],
}


def dtors(p, r):
    """what the functors of some templates captured uses the library when it is destroyed"""
    text = p.text()
    plain = p.op()
    qs = [q for q in p.queues if p.qkind(q) != "foreign" and q != getattr(p, "unserved", None)]
    acts = ["async %d %d" % (q, plain) for q in qs] * 2
    if not hasattr(p, "unserved"):
        acts += ["after %d %d %d" % (q, r.choice([0, 5]), plain) for q in qs]
    acts += ["gasync %d %d %d" % (g, q, plain) for g in p.groups for q in qs if p.qkind(q) != "foreign" and not p.gtype.get(g, 0)]
    if "sdel" not in text: # emitting while the signal is destroyed is not allowed
        acts += ["emit %d" % s for s in p.signals]
    for k in sorted(set(re.findall(r"^tnew (\d+)", text, re.M))):
        acts += ["tsus " + k, "tint %s 5" % k, "tcan " + k]
    for k in sorted(set(re.findall(r"^nnew (\d+)", text, re.M))):
        acts += ["nsus " + k]
    acts += ["point"]
    for o in [o for o in p.ops if o != plain]:
        if r.random() < .6:
            d = p.op([r.choice(acts) for _ in range(r.choice([1, 1, 2]))])
            p.ops[o].insert(0, "dtor %d" % d)
    return p


def again(p, r):
    """some operations are submitted several times"""
    def plain(t):
        return all(st.split()[0] in ("point", "up", "sleep", "async", "after", "dtor") for st in p.ops[t])
    def change(b):
        for i, st in enumerate(b):
            w = st.split()
            if w[0] == "async" and len(w) == 3 and r.random() < .4:
                g, q, t = -1, int(w[1]), int(w[2])
            elif w[0] == "gasync" and len(w) == 4 and r.random() < .4:
                g, q, t = map(int, w[1:])
            else:
                continue
            if p.qkind(q) != "foreign" and not p.gtype.get(g, 0) and plain(t):
                b[i] = "again %d %d %d %d" % (g, q, t, r.choice([2, 2, 3]))
    for b in list(p.threads.values()) + list(p.ops.values()):
        change(b)
    return p


def query(p, r):
    """ask connections for their state around their ends"""
    def change(b):
        for i in range(len(b) - 1, -1, -1):
            w = b[i].split()
            if w[0] in ("disc", "sdel", "emit", "unscope", "qend", "qdisc") and r.random() < .3:
                c = int(w[1]) if w[0] == "disc" else r.choice(cs)
                b.insert(i + r.choice([0, 1, 1]), "cq %d" % c)
    cs = [int(c) for c in re.findall(r"^(?:at \d+ )?q?conn (\d+)", p.text(), re.M)]
    if cs:
        for b in list(p.threads.values()) + list(p.ops.values()) + [p.final]:
            change(b)
        if r.random() < .3:
            p.thread(["cq %d" % r.choice(cs) for _ in range(r.choice([1, 2, 3]))])
    return p


AGAIN = {"C01": .15, "C02": .15, "C03": .2, "C06": .15, "C07": .1, "C17": .15, "C21": .15, "C15": .1, "C19": .1}
DTORS = {"C03": .35, "C19": .35, "C16": 0, "C18": 0, "C14": 0, "C20": 0}


def programs(prop, seed, count):
    fams = FAMILIES[prop]
    r = random.Random("%s/%s" % (prop, seed))
    out = []
    for i in range(count):
        f = r.choices([x[1] for x in fams], [x[0] for x in fams])[0]
        p = f(random.Random(r.random()), "%s_%d" % (prop.lower(), i))
        r2 = random.Random(r.random())
        if r2.random() < DTORS.get(prop, .12):
            dtors(p, r2)
        if prop in ("C13", "C22", "C19") and r2.random() < .35:
            query(p, r2)
        if r2.random() < AGAIN.get(prop, 0):
            again(p, r2)
        out.append(p.text())
    return out


if __name__ == "__main__":
    import sys
    print("".join(programs(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))))
