----------------------------- MODULE Notifier -----------------------------
(* Socket notifiers: C10 readiness, C09 cancellation.

   events  nc k sock type q               constructed, type 0 read 1 write
           nres c k / nresr c k           resume
           nsus c k / nsusr c k           suspend
           ncan c k / ncanr c k           cancel
           st .. "nt" k sock              handler call, sock -1: wrong arguments
           sw s n, sd s left, scp s       readable end: data, drained, peer closed
           sf s, se s                     writable end: full, drained by the peer
           scl s                          monitored descriptor closed      *)
EXTENDS Timer

SockOf(s, k) == IF Has(s.sock, k) THEN s.sock[k]
                ELSE [rd |-> FALSE, eof |-> FALSE, wr |-> TRUE, closed |-> FALSE]
Ready(s, k) == LET n == s.nt[k] d == SockOf(s, n.s) IN
               ~d.closed /\ IF n.ty = 0 THEN d.rd \/ d.eof ELSE d.wr
NtRunning(s, k) == RunningAs(s, "nt", k)

NtStErrs(s, e) ==
    LET k == e[9] r == s.nt[k] IN
    If(r.can, {<<"C09", "after">>})
    \cup If(NtRunning(s, k) # {}, {<<"C10", "overlap">>})
    \cup If(e[10] # r.s, {<<"C10", "args">>})
    \cup If(r.q # e[5], {<<"C17", "queue">>})
    \cup (IF r.can \/ r.left > 0 \/ r.lv.unb THEN {}
          ELSE IF ~May(r.lv) THEN {<<"C10", "suspended">>}
          ELSE If(~r.win /\ ~r.lv.amb, {<<"C10", "spurious">>}))

NtMissed(s, k) ==
    LET r == s.nt[k] IN
    /\ Must(r.lv) /\ ~r.can /\ ~r.ending /\ Ready(s, k)
    /\ s.run = Empty /\ Available(s, r.q)

NotifierErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "st" /\ e[8] = "nt" -> NtStErrs(s, e)
      [] nm \in {"idle", "quiet"} ->
            If(\E k \in DOMAIN s.nt : NtMissed(s, k), {<<"C10", "missed">>})
      [] OTHER -> {}

SetSock(s, e, f) ==
    LET s1 == [s EXCEPT !.sock = Put(@, e[4], f)] IN
    [s1 EXCEPT !.nt = [k \in DOMAIN s1.nt |->
        IF s1.nt[k].s = e[4] /\ Ready(s1, k) THEN [s1.nt[k] EXCEPT !.win = TRUE]
        ELSE s1.nt[k]]]

NotifierUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "nc" ->
            [s EXCEPT !.nt = Put(@, e[4],
               [s |-> e[5], ty |-> e[6], q |-> e[7], lv |-> LvNew,
                can |-> FALSE, ending |-> FALSE, win |-> FALSE, left |-> 0])]
      [] nm = "nres" -> [s EXCEPT !.nt[e[5]].win = IF Start(s.nt[e[5]].lv) THEN Ready(s, e[5]) ELSE @,
                                  !.nt[e[5]].lv = LvRes(@)]
      [] nm = "nresr" -> [s EXCEPT !.nt[e[5]].lv = LvResr(@)]
      [] nm = "nsus" ->
            [s EXCEPT !.nt[e[5]].lv = LvSus(@),
                      !.tcall = Put(@, e[4], [k |-> e[5], what |-> "sus", inside |-> TRUE])]
      [] nm = "nsusr" ->
            LET r == s.nt[e[5]] l == LvSusr(r.lv) IN
            [s EXCEPT !.nt[e[5]].lv = l,
                      !.nt[e[5]].left = IF /\ May(r.lv) /\ ~May(l) /\ NtRunning(s, e[5]) = {}
                                           /\ (r.win \/ l.amb)
                                        THEN 1 ELSE r.left,
                      !.tcall = Del(@, {e[4]})]
      [] nm = "ncan" ->
            [s EXCEPT !.nt[e[5]].ending = TRUE,
                      !.tcall = Put(@, e[4], [k |-> e[5], what |-> "nt",
                          inside |-> \E x \in NtRunning(s, e[5]) : s.run[x].tid = Tid(e)])]
      [] nm = "ncanr" -> [s EXCEPT !.nt[e[5]].can = TRUE, !.tcall = Del(@, {e[4]})]
      [] nm = "st" /\ e[8] = "nt" ->
            LET k == e[9] r == s.nt[k] IN
            [s EXCEPT !.nt[k].left = IF r.left > 0 /\ (~May(r.lv) \/ ~r.win) THEN 0 ELSE r.left]
      [] nm = "en" /\ Has(s.run, e[4]) /\ s.run[e[4]].k = "nt" ->
            [s EXCEPT !.nt[s.run[e[4]].a].win = Ready(s, s.run[e[4]].a)]
      [] nm = "sw" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.rd = TRUE])
      [] nm = "sd" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.rd = (e[5] = 1)])
      [] nm = "scp" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.eof = TRUE, !.wr = TRUE])
      [] nm = "sf" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.wr = FALSE])
      [] nm = "se" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.wr = TRUE])
      [] nm = "scl" -> SetSock(s, e, [SockOf(s, e[4]) EXCEPT !.closed = TRUE])
      [] OTHER -> s
=============================================================================
