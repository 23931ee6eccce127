------------------------------ MODULE Signal ------------------------------
(* Signals: C11 single_updates, C12 batch_updates, C13 disconnecting.

   events  ds sig kind group              declared
           sc c sig q mode / scr c        connect; mode 0 batch 1 single
           sch c sig sig2 / schr c        chain to another signal
           em m sig / emr m               emit with argument m
           st .. "sg" c v                 handler call, v -1: inconsistent arguments
           dc call c / dcr call res       disconnect (res -1: by other means)
           cq call c / cqr call res       connected?
           sk call sig / skr call sig     skip_all
           sx call sig / sxr call sig     signal destroyed                 *)
EXTENDS Notifier

Connecting == 0
Up         == 1
Leaving    == 2
Gone       == 3
Batch  == 0
Single == 1
Chain  == 2

SgRunning(s, c) == RunningAs(s, "sg", c)
ConnsOf(s, sg) == {c \in DOMAIN s.cn : s.cn[c].s = sg}

RECURSIVE Reach(_, _, _)
Reach(s, sg, phases) ==
    {sg} \cup UNION {Reach(s, s.cn[c].to, phases) :
        c \in {d \in ConnsOf(s, sg) : s.cn[d].md = Chain /\ s.cn[d].st \in phases}}

Skipping(s, sg) == \E k \in DOMAIN s.scall : s.scall[k].op = "sk" /\ s.scall[k].s = sg

MustConns(s, sg) == {c \in DOMAIN s.cn :
    /\ s.cn[c].md # Chain /\ s.cn[c].st = Up
    /\ s.cn[c].s \in Reach(s, sg, {Up})
    /\ ~Skipping(s, s.cn[c].s) }
MayConns(s, sg) == {c \in DOMAIN s.cn :
    /\ s.cn[c].md # Chain /\ s.cn[c].st # Gone
    /\ s.cn[c].s \in Reach(s, sg, {Connecting, Up, Leaving})}

(* connections which are bound to a QObject *)
QtAlso(s, c, errs) == errs \cup If(c \in s.qo, {<<"C22", t[2]>> : t \in errs})

CallFam(s, c) == IF s.cn[c].md = Batch THEN "C12" ELSE "C11"

SgStErrs(s, e) ==
    LET c == e[9] v == e[10] r == s.cn[c] IN
    IF ~Has(s.cn, c) THEN {<<"C13", "ghost">>}
    ELSE If(r.q # e[5], {<<"C17", "queue">>})
         \cup (IF r.st = Gone THEN If(v \notin r.late, {<<"C13", "after">>})
               ELSE IF v < 0 \/ ~Has(s.em, v) THEN {<<CallFam(s, c), "args">>}
               ELSE IF v \in r.skipped
                    THEN If(r.slack = 0, {<<"C13", "skipped">>})
               ELSE IF r.md = Single
                    THEN LET P == {p \in s.pend : p.c = c} IN
                         If(~\E p \in P : p.m = v, {<<"C11", "ghost">>})
                         \cup If(IsSerial(s, r.q) /\
                                 \E p \in P : p.must /\ p.m \in s.em[v].pre,
                                 {<<"C11", "order">>})
               ELSE If(v \notin r.avail, {<<"C12", "ghost">>})
                    \cup If(v \in r.avail /\ r.cnt = 0, {<<"C12", "many">>}))

SgLost(s, c) == QtAlso(s, c,
                {<<CallFam(s, c), "lost">>}
                \cup If(Has(s.sig, s.cn[c].s) /\ s.sig[s.cn[c].s].skips > 0,
                        {<<"C13", "skip">>})
                \cup If(\E d \in DOMAIN s.cn : s.cn[d].st = Gone /\ d # c,
                        {<<"C13", "others">>}))

SgSilentErrs(s, all) ==
    UNION {If(p.must /\ ((all /\ ~Unserved(s, s.cn[p.c].q)) \/ (s.run = Empty /\ s.em[p.m].done
                                 /\ Available(s, s.cn[p.c].q))),
              SgLost(s, p.c)) : p \in s.pend}
    \cup UNION {If(s.cn[c].md = Batch /\ s.cn[c].owed > 0
                   /\ ((all /\ ~Unserved(s, s.cn[c].q)) \/ (s.run = Empty /\ s.em[s.cn[c].owedm].done
                               /\ Available(s, s.cn[c].q))),
                   SgLost(s, c)) : c \in DOMAIN s.cn}

DcrErrs(s, e) ==
    LET k == s.scall[e[4]] r == s.cn[k.c] IN
    If(~k.inside /\ \E x \in SgRunning(s, k.c) : s.run[x].tid # Tid(e),
       {<<"C13", "running">>})
    \cup If(e[5] = 1 /\ (k.gone \/ r.won), {<<"C13", "result">>})
    \cup If(e[5] = 0 /\ ~k.gone /\ r.dcs = 1 /\ ~s.sig[r.s].dying, {<<"C13", "result">>})

(* connected until the end of the connection begins, disconnected once it is over *)
CqrErrs(s, e) ==
    LET k == s.scall[e[4]] IN
    If(\/ e[5] = 1 /\ k.gone
       \/ e[5] = 0 /\ s.cn[k.c].st = Up, {<<"C13", "connected">>})

SignalErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "st" /\ e[8] = "sg" -> QtAlso(s, e[9], SgStErrs(s, e))
      [] nm = "dcr" -> If(e[5] # -2, QtAlso(s, s.scall[e[4]].c, DcrErrs(s, e)))
      [] nm = "cqr" -> QtAlso(s, s.scall[e[4]].c, CqrErrs(s, e))
      [] nm = "sxr" ->
            (* what ended itself within its last call is not the signal's any more *)
            If(\E c \in {d \in ConnsOf(s, e[5]) : ~s.cn[d].self} : \E x \in SgRunning(s, c) :
                  /\ s.run[x].tid # Tid(e)
                  /\ ~\E y \in SgRunning(s, c) : s.run[y].tid = Tid(e),
               {<<"C13", "running">>})
      [] nm = "idle" -> SgSilentErrs(s, FALSE)
      [] nm = "quiet" ->
            SgSilentErrs(s, TRUE)
            \cup If(s.scall # Empty \/ \E c \in DOMAIN s.cn : s.cn[c].st = Connecting,
                    {<<"C13", "stuck">>, <<"C19", "stuck">>}
                    \cup If(s.qo # {}, {<<"C22", "stuck">>}))
            \cup If(\E m \in DOMAIN s.em : ~s.em[m].done, {<<"C11", "stuck">>, <<"C19", "stuck">>})
      [] OTHER -> {}

(* --- effects ---------------------------------------------------------------- *)
Forgive(s, C) ==   \* nothing is due any more for the connections C
    [s EXCEPT !.pend = {IF p.c \in C THEN [p EXCEPT !.must = FALSE] ELSE p : p \in @},
              !.cn = [c \in DOMAIN @ |-> IF c \in C THEN [@[c] EXCEPT !.owed = 0] ELSE @[c]]]
(* nothing is due for emissions under way which pass a chain to signal sg *)
ForgiveVia(s, sg) ==
    LET C == {c \in DOMAIN s.cn : s.cn[c].md # Chain
                 /\ s.cn[c].s \in Reach(s, sg, {Connecting, Up, Leaving})} IN
    [s EXCEPT !.pend = {IF p.c \in C /\ ~s.em[p.m].done THEN [p EXCEPT !.must = FALSE] ELSE p : p \in @},
              !.cn = [c \in DOMAIN @ |-> IF c \in C /\ @[c].owed > 0 /\ ~s.em[@[c].owedm].done
                                         THEN [@[c] EXCEPT !.owed = 0] ELSE @[c]]]
Drop(s, C) ==
    [s EXCEPT !.pend = {p \in @ : p.c \notin C},
              !.cn = [c \in DOMAIN @ |-> IF c \in C
                        THEN [@[c] EXCEPT !.owed = 0, !.st = Gone] ELSE @[c]]]
BusyWith(s, q) == LET R == RunningOn(s, q) IN IF IsSerial(s, q) /\ R # {} THEN MinOf(R) ELSE 0

(* emission m becomes deliverable to batch connection c *)
Arm(s, c, m, must) ==
    LET r == s.cn[c] IN
    [r EXCEPT !.avail = @ \cup {m},
              !.cnt = @ + 1,
              !.owed = IF must /\ @ = 0 THEN s.n ELSE @,
              !.owedm = IF must /\ r.owed = 0 THEN m ELSE @]

(* emission m is through: all which happened while the same execution held the
   serial queue share one call, and share it with what was emitted before and
   has not been called yet *)
Pending(s, c, m) ==
    LET r == s.cn[c] IN
    /\ r.owed > 0 /\ r.owedm # m /\ s.em[r.owedm].done /\ s.em[r.owedm].rn < s.em[m].at
    /\ Has(s.sig, r.s) /\ s.sig[r.s].skips = 0
Merge(s, c, m) ==
    LET r == s.cn[c] bx == BusyWith(s, r.q) IN
    IF r.md # Batch \/ r.st = Gone \/ m \notin r.avail \/ bx = 0 \/ s.run[bx].n > s.em[m].at THEN r
    ELSE [r EXCEPT !.cnt = IF r.lastx = bx \/ Pending(s, c, m) THEN Max2(0, @ - 1) ELSE @, !.lastx = bx]

Emit(s, m, sg) ==
    LET must == MustConns(s, sg)
        may  == MayConns(s, sg)
        s1 == [s EXCEPT !.em = Put(@, m,
                  [s |-> sg, done |-> FALSE, at |-> s.n, rn |-> 0,
                   pre |-> {x \in DOMAIN s.em : s.em[x].done}])]
    IN [s1 EXCEPT
          !.pend = @ \cup {[m |-> m, c |-> c, must |-> c \in must] :
                              c \in {d \in may : s.cn[d].md = Single}},
          !.cn = [c \in DOMAIN @ |-> IF c \in may /\ @[c].md = Batch
                                     THEN Arm(s, c, m, c \in must) ELSE @[c]]]

Connect(s, c, r) ==
    LET live == {m \in DOMAIN s.em : ~s.em[m].done
                    /\ r.s \in Reach(s, s.em[m].s, {Connecting, Up, Leaving})}
        s1 == [s EXCEPT !.cn = Put(@, c, [r EXCEPT !.avail = live, !.cnt = Cardinality(live)])]
    IN IF r.md = Single
       THEN [s1 EXCEPT !.pend = @ \cup {[m |-> m, c |-> c, must |-> FALSE] : m \in live}]
       ELSE IF r.md = Chain
       THEN (* emissions under way may or may not take the new chain *)
            LET C == {d \in DOMAIN s.cn : s.cn[d].md # Chain /\ s.cn[d].st # Gone
                        /\ s.cn[d].s \in Reach(s1, r.to, {Connecting, Up, Leaving})}
            IN [s1 EXCEPT
                  !.pend = @ \cup {[m |-> m, c |-> d, must |-> FALSE] :
                                      m \in live, d \in {x \in C : s.cn[x].md = Single}},
                  !.cn = [d \in DOMAIN @ |-> IF d \in C /\ @[d].md = Batch
                            THEN [@[d] EXCEPT !.avail = @ \cup live,
                                              !.cnt = @ + Cardinality(live)] ELSE @[d]]]
       ELSE s1

NewConn(sg, q, md, to) ==
    [s |-> sg, q |-> q, md |-> md, to |-> to, st |-> Connecting, owed |-> 0, owedm |-> 0,
     avail |-> {}, cnt |-> 0, lastx |-> 0, skipped |-> {}, slack |-> 0, late |-> {},
     dcs |-> 0, won |-> FALSE, self |-> FALSE]

SkipRet(s, k) ==
    LET r == s.scall[k]
        C == ConnsOf(s, r.s)
        old(c) == {p.m : p \in {x \in s.pend : x.c = c /\ x.m \in r.pre}}
    IN [s EXCEPT
          !.pend = {p \in @ : ~(p.c \in C /\ p.m \in r.pre)},
          !.cn = [c \in DOMAIN @ |-> IF c \in C /\ @[c].md # Chain
                    THEN [@[c] EXCEPT
                            !.skipped = @ \cup old(c) \cup (s.cn[c].avail \cap r.pre),
                            !.avail = @ \ r.pre,
                            !.slack = IF ~IsSerial(s, s.cn[c].q) THEN 8
                                      ELSE IF RunningOn(s, s.cn[c].q) # {} THEN 0 ELSE 1]
                    ELSE @[c]],
          !.scall = Del(@, {k})]

SignalUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "ds" -> [s EXCEPT !.sig = Put(@, e[4], [g |-> e[6], dying |-> FALSE, skips |-> 0])]
      [] nm = "sc" -> Connect(s, e[4], NewConn(e[5], e[6], IF e[7] = 0 THEN Batch ELSE Single, -1))
      [] nm = "sch" -> Connect(s, e[4], NewConn(e[5], -1, Chain, e[6]))
      [] nm \in {"scr", "schr"} ->
            IF s.cn[e[4]].st = Connecting THEN [s EXCEPT !.cn[e[4]].st = Up] ELSE s
      [] nm = "em" -> Emit(s, e[4], e[5])
      [] nm = "emr" -> [s EXCEPT !.em[e[4]].done = TRUE, !.em[e[4]].rn = s.n,
                                 !.cn = [c \in DOMAIN @ |-> IF @[c].md = Chain THEN @[c]
                                                            ELSE Merge(s, c, e[4])]]
      [] nm = "st" /\ e[8] = "sg" /\ Has(s.cn, e[9]) ->
            LET c == e[9] v == e[10] r == s.cn[c] IN
            IF v \in r.skipped
            THEN [s EXCEPT !.cn[c].skipped = @ \ {v}, !.cn[c].slack = Max2(0, @ - 1)]
            ELSE [s EXCEPT !.pend = {p \in @ : ~(p.c = c /\ p.m = v)},
                           !.cn[c].avail = @ \ {v},
                           !.cn[c].cnt = Max2(0, @ - 1),
                           !.cn[c].lastx = 0,
                           !.cn[c].owed = 0]
      [] nm = "idle" -> [s EXCEPT !.cn = [c \in DOMAIN @ |-> [@[c] EXCEPT !.late = {}]]]
      [] nm = "dc" ->
            LET c == e[5]
                s1 == IF s.cn[c].md = Chain THEN ForgiveVia(s, s.cn[c].to) ELSE Forgive(s, {c})
            IN [s1 EXCEPT
                  !.scall = Put(@, e[4], [op |-> "dc", c |-> c, s |-> -1, gone |-> s.cn[c].st = Gone,
                     inside |-> \E x \in SgRunning(s, c) : s.run[x].tid = Tid(e), pre |-> {}]),
                  !.cn[c].st = IF @ = Gone THEN Gone ELSE Leaving,
                  !.cn[c].self = @ \/ \E x \in SgRunning(s, c) : s.run[x].tid = Tid(e),
                  !.cn[c].dcs = @ + 1]
      [] nm = "dcr" ->
            LET k == s.scall[e[4]]
                r == s.cn[k.c]
                (* -2: another call may be the one to disconnect, and not be done *)
                s1 == IF e[5] = -2 THEN s ELSE Drop(s, {k.c})
            IN [s1 EXCEPT !.scall = Del(@, {e[4]}),
                          !.cn[k.c].won = @ \/ e[5] = 1,
                          (* disconnecting within a call waits for no other one *)
                          !.cn[k.c].late = IF k.inside /\ ~IsSerial(s, r.q)
                             THEN @ \cup r.avail \cup {p.m : p \in {x \in s.pend : x.c = k.c}}
                             ELSE @]
      [] nm = "cq" ->
            [s EXCEPT !.scall = Put(@, e[4], [op |-> "cq", c |-> e[5], s |-> -1,
                gone |-> s.cn[e[5]].st = Gone, inside |-> FALSE, pre |-> {}])]
      [] nm = "cqr" -> [s EXCEPT !.scall = Del(@, {e[4]})]
      [] nm = "sk" ->
            LET s1 == Forgive(s, ConnsOf(s, e[5])) IN
            [s1 EXCEPT !.scall = Put(@, e[4], [op |-> "sk", c |-> -1, s |-> e[5], gone |-> FALSE,
                          inside |-> FALSE, pre |-> {m \in DOMAIN s.em : s.em[m].done}]),
                       !.sig[e[5]].skips = @ + 1]
      [] nm = "skr" -> SkipRet(s, e[4])
      [] nm = "sx" ->
            LET C == ConnsOf(s, e[5])
                s1 == Forgive(ForgiveVia(s, e[5]), C)
            IN [s1 EXCEPT
                  !.scall = Put(@, e[4], [op |-> "sx", c |-> -1, s |-> e[5], gone |-> FALSE,
                                          inside |-> FALSE, pre |-> {}]),
                  !.sig[e[5]].dying = TRUE,
                  !.cn = [c \in DOMAIN @ |-> IF c \in C /\ @[c].st # Gone
                            THEN [@[c] EXCEPT !.st = Leaving] ELSE @[c]]]
      [] nm = "sxr" ->
            LET s1 == Drop(s, ConnsOf(s, e[5])) IN [s1 EXCEPT !.scall = Del(@, {e[4]})]
      [] OTHER -> s
=============================================================================
