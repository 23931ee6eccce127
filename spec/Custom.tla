------------------------------- MODULE Custom -------------------------------
(* C23: custom thread pools are told when their threads block.

   events  pb k / pu k                    notify_thread_blocked, _unblocked of pool k
           cu k                           ithreadpool::current() on this thread:
                                          a custom pool, -1 none, -2 another pool
   The pools run their items through run_with_threadpool. They may do so from
   within another item, possibly one of another pool. *)
EXTENDS Mix

OnCustom(s, t, k) == InnerWhere(s, t) = 10 + k
Told(s, t, k) == IF Has(s.blk, <<t, k>>) THEN s.blk[<<t, k>>] ELSE 0
StillTold(s, t) == \E p \in DOMAIN s.blk : p[1] = t /\ s.blk[p] > 0
PoolOfCur(s, t) ==
    LET w == InnerWhere(s, t) IN
    CASE w \in 10..29 -> {w - 10} \cup If(w - 10 \in s.pd.gone, {-1})
      [] w = 1 -> {-2}
      [] w \in {0, 2} -> {-1}
      [] OTHER -> {-1, -2}

(* a thread of custom pool k is inside a call which blocks it *)
BlockedCalls(s) == {<<s.gw[c].tid, c>> : c \in DOMAIN s.gw}
                   \cup {<<s.ap[c].tid, c>> : c \in DOMAIN s.ap}

CustomErrs(s, e) ==
    LET nm == Name(e) t == Tid(e) IN
    CASE nm = "pb" -> If(~OnCustom(s, t, e[4]), {<<"C23", "blocked">>})
      [] nm = "pu" -> If(Told(s, t, e[4]) = 0, {<<"C23", "unpaired">>})
      [] nm = "cu" -> If(e[4] \notin PoolOfCur(s, t), {<<"C23", "current">>})
      [] nm \in {"gwr", "apr", "en"} -> If(StillTold(s, t), {<<"C23", "held">>})
      [] nm = "idle" ->
            If(\E p \in BlockedCalls(s), k \in DOMAIN s.pool :
                  OnCustom(s, p[1], k) /\ k \notin s.pd.gone /\ Told(s, p[1], k) = 0,
               {<<"C23", "silent">>})
            (* the pool has a thread more for each one it was told about *)
      [] nm = "quiet" -> If(\E p \in DOMAIN s.blk : s.blk[p] > 0 /\ s.gw = Empty /\ s.ap = Empty,
                            {<<"C23", "held">>})
      [] OTHER -> {}

CustomUpd(s, e) ==
    LET nm == Name(e) t == Tid(e) IN
    CASE nm = "pb" -> [s EXCEPT !.blk = Put(@, <<t, e[4]>>, Told(s, t, e[4]) + 1)]
      [] nm = "pu" -> IF Told(s, t, e[4]) <= 1 THEN [s EXCEPT !.blk = Del(@, {<<t, e[4]>>})]
                      ELSE [s EXCEPT !.blk = Put(@, <<t, e[4]>>, @[<<t, e[4]>>] - 1)]
      [] OTHER -> s
=============================================================================
