------------------------------- MODULE Group -------------------------------
(* Operation groups: C06 group::wait, C07 group::notify.

   events  gw c g timeout / gwr c res     wait; timeout -1, -2: without end
           gn o g q / gnr o               notify
   The operations of a group are the tracked ones of Exec with that group and
   the pending handler calls of signals which were created with the group. *)
EXTENDS Exec

GroupOps(s, g) == {o \in DOMAIN s.op : /\ s.op[o].k = "op" /\ s.op[o].g = g
                                       /\ s.op[o].ph \in {Queued, Running}}
AllGroupOps(s, g) == {o \in DOMAIN s.op : /\ s.op[o].k = "op" /\ s.op[o].g = g
                                          /\ s.op[o].ph < Done}

(* handler calls tracked by the group *)
Tracked(s, g, c) == LET sg == s.cn[c].s IN Has(s.sig, sg) /\ s.sig[sg].g = g
GroupCalls(s, g) ==
    {p \in s.pend : p.must /\ s.em[p.m].done /\ Tracked(s, g, p.c)}
GroupRuns(s, g) == {x \in DOMAIN s.run : s.run[x].k = "sg" /\ Tracked(s, g, s.run[x].a)}
GroupOwed(s, g) == {<<c, s.cn[c].owed>> : c \in
    {d \in DOMAIN s.cn : s.cn[d].md = 0 /\ s.cn[d].owed > 0 /\ Tracked(s, g, d)
                         /\ s.cn[d].owedm \in DOMAIN s.em
                         (* covered by the call of another emission under way *)
                         /\ \A m \in s.cn[d].avail : s.em[m].done}}
CallsOpen(s, r) == \/ \E p \in r.calls : [m |-> p.m, c |-> p.c, must |-> TRUE] \in s.pend
                   \/ \E x \in r.runs : Has(s.run, x)
                   \/ \E p \in r.owed : Has(s.cn, p[1]) /\ s.cn[p[1]].owed = p[2]

GroupErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "gwr" ->
            LET r == s.gw[e[4]] IN
            IF e[5] = 1
            THEN If(\E o \in r.need : ~OpDone(s, o), {<<"C06", "early">>})
                 \cup If(CallsOpen(s, r), {<<"C11", "group">>})
                 \cup If(r.to >= 0 /\ s.jump = 0 /\ Now(e) > r.at + r.to + 1, {<<"C06", "late">>})
            ELSE If(r.to < 0, {<<"C06", "false">>})
                 \cup If(r.to >= 0 /\ Now(e) < r.at + r.to, {<<"C06", "timeout">>})
                 \cup If(r.to >= 0 /\ s.jump = 0 /\ Now(e) > r.at + r.to + 1, {<<"C06", "late">>})
      [] nm = "st" ->
            LET o == e[9] IN
            If(/\ e[8] = "op" /\ Has(s.op, o) /\ s.op[o].k = "gn"
               /\ \E p \in s.op[o].need : ~OpDone(s, p), {<<"C07", "early">>})
      [] nm = "idle" ->
            (* all operations of the group are through, nothing can happen any
               more before time passes, but somebody still waits for them *)
            UNION {If(/\ AllGroupOps(s, s.gw[c].g) = {}
                      /\ ~CallsOpen(s, s.gw[c])
                      /\ GroupRuns(s, s.gw[c].g) = {}
                      /\ ~\E p \in s.pend : Tracked(s, s.gw[c].g, p.c)
                      (* calls which are not made any more are tracked, too *)
                      /\ \A d \in DOMAIN s.cn : Tracked(s, s.gw[c].g, d) =>
                            s.run = Empty /\ Available(s, s.cn[d].q)
                      /\ ~\E d \in DOMAIN s.cn : s.cn[d].md = 0 /\ s.cn[d].cnt > 0
                                                  /\ s.cn[d].avail # {}
                                                  /\ Tracked(s, s.gw[c].g, d),
                      {<<"C06", "missed">>}) : c \in DOMAIN s.gw}
      [] nm = "quiet" -> If(s.gw # Empty, {<<"C06", "stuck">>, <<"C19", "stuck">>})
      [] OTHER -> {}

GroupUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "gw" ->
            [s EXCEPT !.gw = Put(@, e[4],
               [g |-> e[5], to |-> e[6], at |-> Now(e), tid |-> Tid(e),
                need |-> Counted(s, GroupOps(s, e[5])), calls |-> GroupCalls(s, e[5]),
                runs |-> GroupRuns(s, e[5]), owed |-> GroupOwed(s, e[5])])]
      [] nm = "gwr" -> [s EXCEPT !.gw = Del(@, {e[4]})]
      [] nm = "gn" -> [s EXCEPT !.op = Put(@, e[4],
                          NewOp(e, e[6], -1, "gn", {}, Counted(s, GroupOps(s, e[5])), 0)),
                          !.wo = Listing(s, e[6], e[4])]
      [] OTHER -> s
=============================================================================
