------------------------------- MODULE Pool -------------------------------
(* The library's thread pool: C16 no starvation, C18 priorities.

   No events of its own: judged from executions on library threads and from
   the silence events of Base. *)
EXTENDS Group

LibRuns(s) == {x \in DOMAIN s.run : s.run[x].where = 1}
LibTids(s) == {s.run[x].tid : x \in LibRuns(s)}
(* threads inside group::wait or apply give their slot away meanwhile *)
BlockedTids(s) == {t \in {s.gw[c].tid : c \in DOMAIN s.gw} \cup {s.ap[c].tid : c \in DOMAIN s.ap} :
    (* what runs within an item of a custom pool blocks that pool *)
    InnerWhere(s, t) \notin 10..29}
Occupied(s) == Cardinality(LibTids(s) \ BlockedTids(s))

OnPool(s, o) == s.q[s.op[o].q].k \in LibKinds
(* could start if it had a thread *)
Startable(s, o) ==
    /\ s.op[o].k = "op" /\ s.op[o].ph = Queued /\ OnPool(s, o)
    /\ IsSerial(s, s.op[o].q) => RunningOn(s, s.op[o].q) = {}
(* the same for indices of an apply call *)
ApStartable(s, c) ==
    /\ s.q[s.ap[c].q].k \in LibKinds
    /\ s.ap[c].st # 0..(s.ap[c].n - 1)
    /\ IsSerial(s, s.ap[c].q) => RunningOn(s, s.ap[c].q) = {}

Class(p) == CASE p = 0 -> 0 [] p = 1 -> 1 [] p = 4 -> 3 [] OTHER -> 2
ClassOf(s, q) == Class(s.q[q].p)

(* places in the pool's lists which were certainly occupied, by something of a
   higher class than c, from event n on *)
Higher(s, c, n) ==
    {<<"o", o>> : o \in {p \in DOMAIN s.op :
        /\ s.op[p].k = "op" /\ s.op[p].ph = Queued /\ s.op[p].seq < n
        /\ s.q[s.op[p].q].k = "global" /\ ClassOf(s, s.op[p].q) < c}}
    \cup
    {<<"q", q>> : q \in {r \in DOMAIN s.q :
        /\ s.q[r].k \in {"serial", "wserial"} /\ ClassOf(s, r) < c
        /\ s.q[r].k = "wserial" =>
              /\ \A o \in DOMAIN s.wo : s.wo[o] # r
              /\ \A o \in DOMAIN s.op : s.op[o].q = r => s.op[o].k = "op"
              /\ s.ap = Empty /\ s.cn = Empty /\ s.tm = Empty /\ s.nt = Empty
        /\ RunningOn(s, r) = {}
        /\ \E o \in DOMAIN s.op : /\ s.op[o].k = "op" /\ s.op[o].q = r
                                  /\ s.op[o].ph = Queued /\ s.op[o].seq < n}}

(* threads which may be about to run what they picked before: the pool has at
   most its configured number, one more for each thread which was blocked in
   the library at the same time, and one which decided to expire but stayed *)
OtherPicks(s, e) ==
    Max2(0, s.base + s.extra + (IF Now(e) >= 30000 THEN 1 ELSE 0)
              - 1 - Cardinality(LibTids(s)))

PickErrs(s, e) ==
    LET q == e[5] t == Tid(e) IN
    IF \/ e[6] # 1 \/ e[8] # "op" \/ s.q[q].k \notin LibKinds
       \/ t \in LibTids(s) \/ ~Has(s.thr, t) \/ (s.thr[t].q = q /\ IsSerial(s, q))
       \/ s.tm # Empty \/ s.nt # Empty
    THEN {}
    ELSE If(Cardinality(Higher(s, ClassOf(s, q), s.thr[t].n))
              > OtherPicks(s, e), {<<"C18", "pick">>})

(* the same for the pools of Qt: C21 *)
QtRuns(s, k) == {x \in DOMAIN s.run : s.run[x].where = 50 + k}
QtTids(s, k) == {s.run[x].tid : x \in QtRuns(s, k)}
OnQt(s, q, k) == s.q[q].k = "qpar" /\ s.q[q].a = k
QtStarved(s, k) ==
    /\ Cardinality(QtTids(s, k) \ BlockedTids(s)) < s.qpl[k]
    /\ \/ \E o \in DOMAIN s.op : s.op[o].k = "op" /\ s.op[o].ph = Queued /\ OnQt(s, s.op[o].q, k)
       \/ \E c \in DOMAIN s.ap : OnQt(s, s.ap[c].q, k) /\ s.ap[c].st # 0..(s.ap[c].n - 1)
(* no thread of the pool is available. Only then the priority counts: QThreadPool
   hands what it is given while a thread sleeps to that thread *)
QtFull(s, k) == Cardinality(QtTids(s, k) \ BlockedTids(s)) >= s.qpl[k]
QtPickErrs(s, e) ==
    LET q == e[5] t == Tid(e) k == s.q[q].a IN
    IF e[8] # "op" \/ s.q[q].k # "qpar" \/ t \in QtTids(s, k) \/ ~Has(s.thr, t)
    THEN {}
    ELSE If(Cardinality({o \in s.qful \cap DOMAIN s.op :
                /\ s.op[o].k = "op" /\ s.op[o].ph = Queued /\ s.op[o].seq < s.thr[t].n
                /\ OnQt(s, s.op[o].q, k) /\ ClassOf(s, s.op[o].q) < ClassOf(s, q)})
              > Max2(0, s.qpl[k] + s.extra - 1 - Cardinality(QtTids(s, k))),
            {<<"C21", "pick">>})

PoolErrs(s, e) ==
    CASE Name(e) = "idle" ->
            If(/\ Occupied(s) < s.base
               (* threads of the pool wait for the operation a waitable queue
                  runs elsewhere, and occupy it meanwhile *)
               /\ ~\E x \in DOMAIN s.run : Has(s.q, s.run[x].q) /\ s.q[s.run[x].q].k \in {"waitable", "wserial"}
               /\ \/ \E o \in DOMAIN s.op : Startable(s, o)
                  \/ \E c \in DOMAIN s.ap : ApStartable(s, c),
               {<<"C16", "starved">>})
            \cup If(\E k \in DOMAIN s.qpl : QtStarved(s, k), {<<"C21", "starved">>})
      [] Name(e) = "st" -> PickErrs(s, e) \cup QtPickErrs(s, e)
      [] OTHER -> {}

PoolUpd(s, e) ==
    CASE Name(e) = "en" /\ Has(s.run, e[4]) ->
            [s EXCEPT !.thr = Put(@, Tid(e), [n |-> s.n, q |-> s.run[e[4]].q]), !.qsub = {}]
      [] Name(e) = "sub" /\ s.q[e[5]].k = "qpar" ->
            IF QtFull(s, s.q[e[5]].a) THEN [s EXCEPT !.qsub = @ \cup {e[4]}] ELSE s
      [] Name(e) = "subr" /\ e[4] \in s.qsub ->
            [s EXCEPT !.qsub = @ \ {e[4]}, !.qful = @ \cup {e[4]}]
      [] Name(e) = "st" /\ e[8] = "op" /\ e[9] \in s.qful -> [s EXCEPT !.qful = @ \ {e[9]}]
      (* helper threads of notify and after are blocked meanwhile, too *)
      [] Name(e) \in {"gw", "ap", "gn", "af"} ->
            [s EXCEPT !.qsub = {}, !.extra = Max2(@, 1 + Cardinality(DOMAIN s.gw) + Cardinality(DOMAIN s.ap)
                        + Cardinality({o \in DOMAIN s.op : s.op[o].k \in {"gn", "af"}
                                                           /\ s.op[o].ph < Done}))]
      [] OTHER -> s
=============================================================================
