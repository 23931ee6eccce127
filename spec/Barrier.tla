------------------------------ MODULE Barrier ------------------------------
(* barrier_operation and signal_barrier: C14.

   events  bn b                           barrier_operation constructed
           bc b q / bcr b                 handed to queue q, or run in place (q -1)
           sb b sig / sbr b               signal_barrier constructed
           bw c b timeout / bwr c res     wait
           bp c b / bpr c res             has_passed
           bv c b / bvr c value           values, -2: threw, -1: inconsistent
           bx b                           destroyed                        *)
EXTENDS Signal

NewBar(sg, s) == [sg |-> sg, begun |-> FALSE, done |-> FALSE, passed |-> FALSE, val |-> -2,
                  at |-> s.n, up |-> FALSE, preds |-> {}, q |-> -1,
                  old |-> {m \in DOMAIN s.em : s.em[m].done}]

(* emissions which may have opened signal barrier b *)
Raises(s, r) == {m \in DOMAIN s.em : m \notin r.old
                    /\ r.sg \in Reach(s, s.em[m].s, {Connecting, Up, Leaving, Gone})}
MayOpen(s, r) == IF r.sg < 0 THEN r.begun /\ \A p \in r.preds : OpDone(s, p)
                 ELSE Raises(s, r) # {}
(* has certainly been completed *)
MustOpen(s, r) == r.done \/ r.passed

BarrierErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "bwr" ->
            LET k == s.bw[e[4]] r == s.b[k.b] IN
            IF e[5] = 1 THEN If(~MayOpen(s, r), {<<"C14", "early">>})
                 \cup If(k.to >= 0 /\ s.jump = 0 /\ Now(e) > k.at + k.to + 1, {<<"C14", "late">>})
            ELSE If(k.open, {<<"C14", "false">>})
                 \cup If(k.to < 0, {<<"C14", "false">>})
                 \cup If(k.to >= 0 /\ Now(e) < k.at + k.to, {<<"C14", "timeout">>})
                 \cup If(k.to >= 0 /\ s.jump = 0 /\ Now(e) > k.at + k.to + 1, {<<"C14", "late">>})
      [] nm = "bpr" ->
            LET k == s.bw[e[4]] r == s.b[k.b] IN
            IF e[5] = 1 THEN If(~MayOpen(s, r), {<<"C14", "early">>})
            ELSE If(k.open, {<<"C14", "revert">>})
      [] nm = "bvr" ->
            LET k == s.bw[e[4]] r == s.b[k.b] v == e[5] IN
            CASE v = -2 -> If(k.open, {<<"C14", "throws">>})
              [] v = -1 -> {<<"C14", "value">>}
              [] OTHER -> If(v \notin Raises(s, r) \/ (r.val >= 0 /\ r.val # v),
                             {<<"C14", "value">>})
      [] nm = "idle" ->
            UNION {LET r == s.b[s.bw[c].b] IN
                   If(s.bw[c].w /\ (r.done \/ (s.run = Empty /\
                        IF r.sg < 0 THEN r.begun /\ (r.q < 0 \/ Available(s, r.q))
                        ELSE r.up /\ \E m \in Raises(s, r) : s.em[m].done /\ s.em[m].at >= r.at)),
                      {<<"C14", "missed">>}) : c \in DOMAIN s.bw}
      [] nm = "quiet" -> If(s.bw # Empty, {<<"C14", "stuck">>})
      [] OTHER -> {}

BarrierUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "bn" -> [s EXCEPT !.b = Put(@, e[4], NewBar(-1, s))]
      [] nm = "bc" -> [s EXCEPT !.b[e[4]].begun = TRUE, !.b[e[4]].q = e[5],
                                !.b[e[4]].preds =
                                   IF e[5] >= 0 /\ IsSerial(s, e[5]) THEN Earlier(s, e[5]) ELSE {}]
      [] nm = "bcr" -> IF Has(s.b, e[4]) THEN [s EXCEPT !.b[e[4]].done = TRUE] ELSE s
      [] nm = "sb" -> [s EXCEPT !.b = Put(@, e[4], NewBar(e[5], s))]
      [] nm = "sbr" -> [s EXCEPT !.b[e[4]].up = TRUE, !.b[e[4]].at = s.n]
      [] nm \in {"bw", "bp", "bv"} ->
            [s EXCEPT !.bw = Put(@, e[4], [b |-> e[5], to |-> IF nm = "bw" THEN e[6] ELSE 0,
                                           at |-> Now(e), w |-> nm = "bw",
                                           open |-> MustOpen(s, s.b[e[5]])])]
      [] nm = "bwr" ->
            LET b == s.bw[e[4]].b IN
            [s EXCEPT !.bw = Del(@, {e[4]}), !.b[b].passed = @ \/ e[5] = 1]
      [] nm = "bpr" ->
            LET b == s.bw[e[4]].b IN
            [s EXCEPT !.bw = Del(@, {e[4]}), !.b[b].passed = @ \/ e[5] = 1]
      [] nm = "bvr" ->
            LET b == s.bw[e[4]].b IN
            [s EXCEPT !.bw = Del(@, {e[4]}), !.b[b].passed = @ \/ e[5] >= 0,
                      !.b[b].val = IF e[5] >= 0 THEN e[5] ELSE @]
      [] nm = "idle" /\ s.run = Empty ->
            (* what was queued or raised before has gone through *)
            [s EXCEPT !.b = [k \in DOMAIN @ |->
                IF \/ @[k].sg < 0 /\ @[k].begun /\ (@[k].q < 0 \/ Available(s, @[k].q))
                   \/ @[k].sg >= 0 /\ @[k].up /\
                      \E m \in Raises(s, @[k]) : s.em[m].done /\ s.em[m].at >= @[k].at
                THEN [@[k] EXCEPT !.done = TRUE] ELSE @[k]]]
      [] OTHER -> s
=============================================================================
