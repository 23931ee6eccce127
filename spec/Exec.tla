------------------------------- MODULE Exec -------------------------------
(* Operations and queues: C01 exactly once, C02 serial queues, C03 lifetimes,
   C04 apply, C05 after, C17 placement (and C15/C21 for waitable and Qt-backed
   queues).

   events  dq q kind prio arg | cf threads jump | dp pool workers
           sub o q g / subr o             async begins, returns
           ag o f                         o is the same operation object as f
           af o q delay / afr o           after
           gn o g q / gnr o               notify (guarded in Group)
           ap c q n / apr c               apply
           st x q where prio kind a b     an execution begins
           en x                           ... ends
           de o                           operation destroyed
           xq q, xp p, pd p               handles dropped, pool destroyed
           xe                             exec() entered
           qt k started, qp k threads     QThread, QThreadPool
           qo c j                         connection c is bound to QObject j *)
EXTENDS Base

(* --- where an execution on queue q may take place ------------------------ *)
(* threads inside wait_for_one, wait_for_all or apply of a waitable queue *)
Waiters(s, q) == {s.w[c].tid : c \in {d \in DOMAIN s.w : s.w[d].q = q}}
                 \cup {s.ap[c].tid : c \in {d \in DOMAIN s.ap : s.ap[d].q = q}}
RECURSIVE PlaceOK(_, _, _, _, _)
PlaceOK(s, q, tid, where, prio) ==
    LET d == s.q[q] IN
    CASE d.k \in {"global", "serial"} -> where = 1
      [] d.k = "main" -> where = 2
      [] d.k \in {"cserial", "cpar"} -> where = 10 + d.a /\ prio = d.p
      [] d.k = "wserial" -> where = 1 \/ tid \in Waiters(s, q)
      [] d.k = "waitable" -> \/ tid \in Waiters(s, q)
                             \/ PlaceOK(s, d.a, tid, where, prio)
      [] d.k = "qserial" -> where = 30 + d.a
      [] d.k = "qpar" -> where = 50 + d.a
      [] OTHER -> TRUE

(* --- an operation (async, after, notify) begins -------------------------- *)
OpStErrs(s, e) ==
    LET x == e[4] q == e[5] o == e[9]
        known == Has(s.op, o)
        r == s.op[o]
        fam == IF ~known THEN {<<"C01", "dup">>}
               ELSE CASE r.k = "op" -> {<<"C01", "dup">>} \cup If(r.g >= 0, {})
                      [] r.k = "af" -> {<<"C05", "dup">>}
                      [] r.k = "gn" -> {<<"C07", "dup">>}
        bad == ~known \/ (known /\ r.ph \notin {Submitting, Queued, Refused})
    IN If(bad, fam \cup Also(s, q, "dup"))
       \cup If(known /\ r.ph = Refused, {<<"C20", "ran">>})
       \cup If(known /\ r.q # q, {<<"C17", "queue">>})
       \cup If(~bad /\ r.k = "op" /\ r.ph = Submitting /\ r.tid = Tid(e),
               {<<"C17", "inline">>} \cup Also(s, q, "inline"))
       \cup If(~bad /\ IsSerial(s, q) /\ \E p \in r.preds : ~OpDone(s, p),
               {<<"C02", "fifo">>} \cup Also(s, q, "fifo"))
       \cup If(~bad /\ r.k = "af" /\ Now(e) < r.due, {<<"C05", "early">>})

ApStErrs(s, e) ==
    LET q == e[5] c == e[9] i == e[10]
        known == Has(s.ap, c)
        r == s.ap[c]
    IN IF ~known THEN {<<"C04", "late">>}
       ELSE If(i < 0 \/ i >= r.n, {<<"C04", "range">>})
            \cup If(i \in r.st, {<<"C04", "dup">>} \cup Also(s, q, "dup"))
            \cup If(r.q # q, {<<"C17", "queue">>})
            \cup If(IsSerial(s, q) /\ \E j \in 0..(i - 1) : j \notin r.dn,
                    {<<"C04", "order">>} \cup Also(s, q, "fifo"))
            \cup If(IsSerial(s, q) /\ \E p \in r.preds : ~OpDone(s, p),
                    {<<"C02", "fifo">>} \cup Also(s, q, "fifo"))

StErrs(s, e) ==
    LET q == e[5] kind == e[8] IN
    (CASE kind = "op" -> OpStErrs(s, e)
       [] kind = "ap" -> ApStErrs(s, e)
       [] OTHER -> {})
    \cup If(IsSerial(s, q) /\ RunningOn(s, q) # {},
            {<<"C02", "overlap">>} \cup Also(s, q, "overlap"))
    \cup If(~PlaceOK(s, q, Tid(e), e[6], e[7]),
            {<<"C17", "place">>} \cup Also(s, q, "place")
            \cup If(s.q[q].k \in {"cserial", "cpar"} /\ e[6] = 10 + s.q[q].a,
                    {<<"C18", "passed">>}))

LostTag(r) == CASE r.k = "op" -> {<<"C01", "lost">>}
                [] r.k = "af" -> {<<"C05", "lost">>}
                [] r.k = "gn" -> {<<"C07", "lost">>}

(* silence: what has to be through by now *)
SilentErrs(s, e) ==
    LET O == DOMAIN s.op
        late(r) ==
            /\ Available(s, r.q)
            /\ \/ r.k = "op" /\ r.ph = Queued
               \/ r.k = "af" /\ r.ph = Queued /\ s.jump = 0 /\ Max2(r.at, s.busy) + r.delay < Now(e)
               \/ r.k = "gn" /\ r.ph = Queued /\ \A p \in r.need : OpDone(s, p)
    IN (IF s.run # Empty THEN {} ELSE
        UNION {If(late(s.op[o]), LostTag(s.op[o]) \cup Also(s, s.op[o].q, "lost"))
                 : o \in O})
       \cup UNION {If(s.op[o].ph = Done,
                      {IF s.op[o].k = "af" THEN <<"C05", "retained">>
                       ELSE <<"C03", "retained">>} \cup Also(s, s.op[o].q, "retained"))
                     : o \in O}

QuietErrs(s, e) ==
    LET O == DOMAIN s.op IN
    SilentErrs(s, e)
    \cup UNION {If(s.op[o].ph = Queued /\ ~Unserved(s, s.op[o].q),
                   LostTag(s.op[o]) \cup Also(s, s.op[o].q, "lost")) : o \in O}
    \cup UNION {If(s.op[o].ph = Submitting,
                   {<<"C19", "stuck">>, <<IF s.op[o].k = "op" THEN "C01" ELSE
                      IF s.op[o].k = "af" THEN "C05" ELSE "C07", "stuck">>}) : o \in O}
    \cup UNION {If(s.op[o].ph = Refused, {<<"C20", "retained">>}) : o \in O}
    \cup UNION {If(s.run[x].k = "op", {<<"C19", "hang">>}) : x \in DOMAIN s.run}
    \cup UNION {{<<"C04", "stuck">>} \cup Also(s, s.ap[c].q, "stuck")
                  : c \in DOMAIN s.ap}
    \cup (IF e[4] # 2 THEN {} ELSE
          UNION {If(/\ p \notin s.pd.gone
                    /\ \A q \in DOMAIN s.q :
                         (s.q[q].k \in {"cserial", "cpar"} /\ s.q[q].a = p)
                            => q \in s.pd.xq,
                    {IF \E q \in s.pd.aft : s.q[q].a = p
                     THEN <<"C05", "queue">> ELSE <<"C03", "queue">>})
                   : p \in s.pd.xp})

ExecErrs(s, e) ==
    CASE Name(e) = "st" -> StErrs(s, e)
      [] Name(e) = "en" -> If(~Has(s.run, e[4]), {<<"C19", "harness">>})
      [] Name(e) = "de" ->
            LET o == e[4] IN
            IF ~Has(s.op, o) THEN {<<"C03", "twice">>}
            ELSE LET r == s.op[o] IN
                 If(r.ph = Running, {<<"C03", "during">>} \cup Also(s, r.q, "during"))
                 \cup If(r.ph \in {Submitting, Queued},
                         {<<"C03", "early">>} \cup LostTag(r) \cup Also(s, r.q, "early"))
      [] Name(e) = "apr" ->
            If(s.ap[e[4]].dn # 0..(s.ap[e[4]].n - 1),
               {<<"C04", "early">>} \cup Also(s, s.ap[e[4]].q, "early"))
      [] Name(e) = "idle" ->
            SilentErrs(s, e)
            \cup If(\E c \in DOMAIN s.ap : s.ap[c].n = 0, {<<"C04", "zero">>})
      [] Name(e) = "quiet" -> QuietErrs(s, e)
      [] OTHER -> {}

(* --- effects -------------------------------------------------------------- *)
Earlier(s, q) == {p \in DOMAIN s.op : /\ s.op[p].q = q
                                      /\ s.op[p].k = "op"
                                      /\ s.op[p].ph \in {Queued, Running}}

NewOp(e, q, g, k, preds, need, delay) ==
    [q |-> q, g |-> g, k |-> k, ph |-> Submitting, tid |-> Tid(e),
     preds |-> preds, need |-> need, delay |-> delay,
     at |-> Now(e), due |-> Now(e) + delay, seq |-> 0, dead |-> FALSE]

Returned(s, o) ==
    IF Has(s.op, o) /\ s.op[o].ph = Submitting
    THEN [s EXCEPT !.op[o].ph = Queued, !.op[o].seq = s.n]
    ELSE s

(* a waitable queue lists an operation before it asks its inner queue for a
   thread; whoever has one takes the first of the list *)
Listing(s, q, c) == IF s.q[q].k = "wserial" THEN Put(s.wo, c, q) ELSE s.wo

ExecUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "st" ->
            LET x == e[4] q == e[5] k == e[8] a == e[9]
                s1 == [s EXCEPT !.run = Put(@, x,
                          [q |-> q, k |-> k, a |-> a, b |-> e[10],
                           tid |-> Tid(e), where |-> e[6], n |-> s.n])]
            IN CASE k = "op" /\ Has(s.op, a) -> [s1 EXCEPT !.op[a].ph = Running]
                 [] k = "ap" /\ Has(s.ap, a) -> [s1 EXCEPT !.ap[a].st = @ \cup {e[10]}]
                 [] OTHER -> s1
      [] nm = "en" ->
            IF ~Has(s.run, e[4]) THEN s ELSE
            LET r == s.run[e[4]]
                s1 == [s EXCEPT !.run = Del(@, {e[4]}), !.busy = Now(e)]
            IN CASE r.k = "op" /\ Has(s.op, r.a) -> [s1 EXCEPT !.op[r.a].ph = Done]
                 [] r.k = "ap" /\ Has(s.ap, r.a) -> [s1 EXCEPT !.ap[r.a].dn = @ \cup {r.b}]
                 [] OTHER -> s1
      [] nm = "de" -> IF Has(s.op, e[4]) /\ s.op[e[4]].ph >= Done
                      THEN [s EXCEPT !.op = Del(@, {e[4]})] ELSE s
      [] nm = "sub" -> [s EXCEPT !.op = Put(@, e[4],
                          NewOp(e, e[5], e[6], "op", Earlier(s, e[5]), {}, 0)),
                                  !.wo = Listing(s, e[5], e[4])]
      [] nm \in {"subr", "gnr"} ->
            LET s1 == IF nm = "subr" /\ Has(s.wo, e[4])
                      THEN [Returned(s, e[4]) EXCEPT !.wo = Del(@, {e[4]})]
                      ELSE Returned(s, e[4]) IN
            IF Has(s.tw, e[4]) THEN [s1 EXCEPT !.twr[s.tw[e[4]]] = @ + 1] ELSE s1
      [] nm = "ag" -> [s EXCEPT !.tw = Put(@, e[4], e[5]),
                                !.twr = IF e[4] = e[5] THEN Put(@, e[5], 0) ELSE @]
      [] nm = "af" -> [s EXCEPT !.op = Put(@, e[4],
                          NewOp(e, e[5], -1, "af", {}, {}, e[6])),
                         !.wo = Listing(s, e[5], e[4]),
                         !.pd.aft = @ \cup {e[5]}]
      [] nm = "afr" -> LET s1 == Returned(s, e[4]) IN
                       IF Has(s1.op, e[4]) THEN [s1 EXCEPT !.op[e[4]].at = Now(e)] ELSE s1
      [] nm = "ap" -> [s EXCEPT !.ap = Put(@, e[4],
                          [q |-> e[5], n |-> e[6], st |-> {}, dn |-> {},
                           tid |-> Tid(e), preds |-> Earlier(s, e[5])])]
      [] nm = "apr" -> [s EXCEPT !.ap = Del(@, {e[4]})]
      [] nm = "dq" -> [s EXCEPT !.q = Put(@, e[4], [k |-> e[5], p |-> e[6], a |-> e[7]])]
      [] nm = "cf" -> [s EXCEPT !.base = 2 * e[4], !.jump = e[5]]
      [] nm = "dp" -> [s EXCEPT !.pool = Put(@, e[4], e[5])]
      [] nm = "xe" -> [s EXCEPT !.exec = TRUE]
      [] nm = "qt" -> IF e[5] = 1 THEN [s EXCEPT !.qst = @ \cup {e[4]}] ELSE s
      [] nm = "qp" -> [s EXCEPT !.qpl = Put(@, e[4], e[5])]
      [] nm = "qo" -> [s EXCEPT !.qo = @ \cup {e[4]}]
      [] nm = "xq" -> [s EXCEPT !.pd.xq = @ \cup {e[4]}]
      [] nm = "xp" -> [s EXCEPT !.pd.xp = @ \cup {e[4]}]
      [] nm = "pd" -> [s EXCEPT !.pd.gone = @ \cup {e[4]}]
      [] OTHER -> s
=============================================================================
