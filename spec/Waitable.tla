------------------------------ MODULE Waitable ------------------------------
(* waitable_queue: C15. Order, overlap and exactly-once are judged by Exec.

   events  wo c q / wor c q               wait_for_one
           wa c q / war c q               wait_for_all                     *)
EXTENDS Barrier

(* submitted before, not done *)
OpenOps(s, q) == {o \in DOMAIN s.op : s.op[o].q = q /\ s.op[o].k = "op"
                                      /\ s.op[o].ph \in {Queued, Running}}
AllOpen(s, q) == {o \in DOMAIN s.op : s.op[o].q = q /\ s.op[o].ph < Done}
Credit(s, q) == IF Has(s.wcr, q) THEN s.wcr[q] ELSE [e |-> 0, w |-> 0, lb |-> 0, pe |-> 0]

NoCredit(s, q) == [s EXCEPT !.wcr = Put(@, q, [Credit(s, q) EXCEPT !.lb = 0, !.pe = 0])]

(* calls which may use up completions of q *)
Takers(s, q) == Cardinality({c \in DOMAIN s.w : s.w[c].q = q})
Eaters(s, q) == \/ \E d \in DOMAIN s.w : s.w[d].q = q /\ ~s.w[d].one
                \/ \E a \in DOMAIN s.ap : s.ap[a].q = q
(* nobody is certain of a completion left over any more *)
Unsure(s, q) == [s EXCEPT !.w = [c \in DOMAIN @ |-> IF @[c].q = q THEN [@[c] EXCEPT !.cert = FALSE]
                                                     ELSE @[c]]]

WaitableErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "war" ->
            If(\E o \in s.w[e[4]].need : ~OpDone(s, o), {<<"C15", "early">>})
      [] nm = "wor" ->
            LET r == s.w[e[4]] c == Credit(s, r.q) IN
            If((\E o \in r.need : ~OpDone(s, o)) /\ c.e <= c.w, {<<"C15", "one">>})
      [] nm = "idle" ->
            UNION {LET q == s.w[c].q IN
                   If(AllOpen(s, q) = {} /\ RunningOn(s, q) = {}, {<<"C15", "missed">>})
                   \cup If(RunningOn(s, q) = {} /\ OpenOps(s, q) # {}, {<<"C15", "deadlock">>})
                   (* something had completed nobody else has waited for *)
                   \cup If(s.w[c].one /\ s.w[c].cert, {<<"C15", "held">>})
                     : c \in DOMAIN s.w}
      [] nm = "quiet" -> If(s.w # Empty, {<<"C15", "stuck">>})
      [] OTHER -> {}

WaitableUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "wo" ->
            [s EXCEPT !.w = Put(@, e[4], [q |-> e[5], tid |-> Tid(e), one |-> TRUE,
                                          cert |-> Credit(s, e[5]).lb > Takers(s, e[5]) /\ ~Eaters(s, e[5]),
                                          need |-> OpenOps(s, e[5])])]
      [] nm = "wa" ->
            LET u == Unsure(s, e[5]) IN
            [u EXCEPT !.w = Put(@, e[4], [q |-> e[5], tid |-> Tid(e), one |-> FALSE, cert |-> FALSE,
                                          need |-> OpenOps(s, e[5])])]
      [] nm = "war" -> [NoCredit(s, s.w[e[4]].q) EXCEPT !.w = Del(@, {e[4]})]
      [] nm = "ap" -> Unsure(s, e[5])
      [] nm = "apr" /\ s.q[s.ap[e[4]].q].k \in {"waitable", "wserial"} ->
            LET q == s.ap[e[4]].q IN NoCredit(Unsure(s, q), q)
      [] nm = "wor" ->
            LET r == s.w[e[4]] c == Credit(s, r.q) u == Unsure(s, r.q) IN
            [u EXCEPT !.w = Del(@, {e[4]}),
                      !.wcr = Put(@, r.q, [c EXCEPT !.lb = Max2(0, @ - 1), !.pe = IF c.lb > 0 THEN @ ELSE Max2(0, @ - 1),
                                             !.w = IF \E o \in r.need : ~OpDone(s, o)
                                                   THEN @ + 1 ELSE @])]
      (* the completion is certainly counted once the next operation begins *)
      [] nm = "st" /\ Has(s.wcr, e[5]) ->
            LET q == e[5] c == Credit(s, q) IN
            [s EXCEPT !.wcr = Put(@, q, [c EXCEPT !.lb = @ + c.pe, !.pe = 0])]
      [] nm = "en" /\ Has(s.run, e[4]) ->
            LET q == s.run[e[4]].q c == Credit(s, q) IN
            IF s.q[q].k \in {"waitable", "wserial"}
            THEN [s EXCEPT !.wcr = Put(@, q, [c EXCEPT !.e = @ + 1, !.pe = @ + 1])] ELSE s
      [] OTHER -> s
=============================================================================
