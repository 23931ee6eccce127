------------------------------- MODULE Timer -------------------------------
(* Timers: C08 schedule, C09 cancellation.

   events  tc k interval q                constructed, suspended
           tint c k v / tintr c k v       interval changed
           tres c k delay / tresr c k     resume
           tsus c k / tsusr c k           suspend
           tcan c k / tcanr c k           cancel
           st .. "tm" k                   handler call                     *)
EXTENDS Pool

(* resume and suspend nest. The level of a timer or notifier lies between
   r.lo and r.hi while calls are under way. Once calls overlap such that it is
   open whether the last resume has started it anew, r.amb is set. Suspending
   more often than resuming is undefined (r.unb). *)
LvNew == [lo |-> 0, hi |-> 0, rfl |-> 0, sfl |-> 0, amb |-> FALSE, unb |-> FALSE]
LvRes(l)  == [l EXCEPT !.hi = @ + 1, !.rfl = @ + 1, !.amb = l.sfl > 0 \/ (@ /\ l.hi > 0)]
LvResr(l) == [l EXCEPT !.lo = @ + 1, !.rfl = @ - 1]
LvSus(l)  == [l EXCEPT !.lo = @ - 1, !.sfl = @ + 1, !.amb = @ \/ l.rfl > 0,
                       !.unb = @ \/ (l.lo < 1 /\ l.rfl = 0)]
LvSusr(l) == [l EXCEPT !.hi = @ - 1, !.sfl = @ - 1]
Start(l)  == l.hi = 0                         \* a resume now starts it
May(l)    == l.hi >= 1
Must(l)   == l.lo >= 1 /\ l.rfl = 0 /\ l.sfl = 0 /\ ~l.amb /\ ~l.unb
Certain(l) == ~l.amb /\ ~l.unb

TmRunning(s, k) == RunningAs(s, "tm", k)

(* earliest time of the next call of an active timer *)
TmDue(r) == IF r.calls = 0 THEN r.due ELSE r.last + MinOf(r.ivp \cup r.iv)
(* nothing but time separates the timer from its next call, until then *)
TmLatest(s, r) ==
    IF r.calls = 0 THEN Max2(r.due, Max2(r.resr, s.busy) + r.delay)
    ELSE Max2(r.last, s.busy) + MaxOf(r.ivp \cup r.iv)
SingleShot(r) == r.iv = {0} /\ r.ivp \subseteq {0}

TmStErrs(s, e) ==
    LET k == e[9] r == s.tm[k] t == Now(e) IN
    If(r.can, {<<"C09", "after">>})
    \cup If(TmRunning(s, k) # {}, {<<"C08", "overlap">>})
    \cup If(r.q # e[5], {<<"C17", "queue">>})
    \cup (IF r.can THEN {}
          ELSE IF r.left > 0 \/ r.lv.unb THEN {}
          ELSE IF ~May(r.lv) THEN {<<"C08", "suspended">>}
          ELSE IF r.lv.amb THEN {}
          ELSE IF SingleShot(r) /\ r.calls > 0 THEN {<<"C08", "again">>}
          ELSE If(t < TmDue(r), {<<"C08", "early">>}))

TmStalled(s, k, e) ==
    LET r == s.tm[k] IN
    /\ Must(r.lv) /\ r.resr >= 0 /\ ~r.can /\ ~r.ending
    /\ s.run = Empty /\ Available(s, r.q)
    /\ ~(SingleShot(r) /\ r.calls > 0)
    /\ ~(r.calls > 0 /\ 0 \in r.iv \cup r.ivp)
    /\ TmLatest(s, r) < Now(e)

Outside(s, c, e) == {x \in RunningAs(s, s.tcall[c].what, s.tcall[c].k) :
                        s.run[x].tid # Tid(e)}

TimerErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "st" /\ e[8] = "tm" -> TmStErrs(s, e)
      [] nm \in {"tcanr", "ncanr"} ->
            (* unless called from within the handler, it is not running *)
            If(~s.tcall[e[4]].inside /\ Outside(s, e[4], e) # {}, {<<"C09", "running">>})
      [] nm = "idle" ->
            If(s.jump = 0 /\ \E k \in DOMAIN s.tm : TmStalled(s, k, e), {<<"C08", "stalled">>})
      [] nm = "quiet" ->
            If(\E k \in DOMAIN s.tm : TmStalled(s, k, e), {<<"C08", "stalled">>})
            \cup UNION {{<<"C09", "stuck">>, <<"C19", "stuck">>} : c \in DOMAIN s.tcall}
      [] OTHER -> {}

TimerUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "tc" ->
            [s EXCEPT !.tm = Put(@, e[4],
               [iv |-> {e[5]}, ivp |-> {e[5]}, cur |-> {e[5]}, fly |-> {}, mix |-> FALSE, q |-> e[6],
                lv |-> LvNew, can |-> FALSE, ending |-> FALSE, left |-> 0,
                calls |-> 0, due |-> 0, delay |-> 0, resr |-> -1, last |-> 0])]
      [] nm = "tint" -> [s EXCEPT !.tm[e[5]].iv = @ \cup {e[6]},
                                  !.tm[e[5]].fly = @ \cup {<<e[4], e[6]>>}]
      [] nm = "tintr" ->   \* overlapping changes: either may be the last one
            LET r == s.tm[e[5]] f == r.fly \ {<<e[4], e[6]>>} IN
            [s EXCEPT !.tm[e[5]].cur = IF r.mix \/ f # {} THEN @ \cup {e[6]} ELSE {e[6]},
                      !.tm[e[5]].mix = f # {},
                      !.tm[e[5]].fly = f]
      [] nm = "tres" ->
            LET r == s.tm[e[5]] s1 == [s EXCEPT !.tm[e[5]].lv = LvRes(@)] IN
            IF Start(r.lv)
            THEN [s1 EXCEPT !.tm[e[5]].calls = 0,
                            !.tm[e[5]].due = Now(e) + e[6], !.tm[e[5]].delay = e[6],
                            !.tm[e[5]].resr = -1]
            ELSE s1
      [] nm = "tresr" -> [s EXCEPT !.tm[e[5]].resr = IF @ < 0 THEN Now(e) ELSE @,
                                   !.tm[e[5]].lv = LvResr(@)]
      [] nm = "tsus" ->
            [s EXCEPT !.tm[e[5]].lv = LvSus(@),
                      !.tcall = Put(@, e[4], [k |-> e[5], what |-> "sus", inside |-> TRUE])]
      [] nm = "tsusr" ->
            LET r == s.tm[e[5]] l == LvSusr(r.lv) IN
            [s EXCEPT !.tm[e[5]].lv = l,
                      !.tm[e[5]].left =
                         IF /\ May(r.lv) /\ ~May(l) /\ TmRunning(s, e[5]) = {}
                            /\ (l.amb \/ (~(SingleShot(r) /\ r.calls > 0) /\ TmDue(r) <= Now(e)))
                         THEN 1 ELSE r.left,
                      !.tcall = Del(@, {e[4]})]
      [] nm = "tcan" ->
            [s EXCEPT !.tm[e[5]].ending = TRUE,
                      !.tcall = Put(@, e[4], [k |-> e[5], what |-> "tm",
                          inside |-> \E x \in TmRunning(s, e[5]) : s.run[x].tid = Tid(e)])]
      [] nm = "tcanr" -> [s EXCEPT !.tm[e[5]].can = TRUE, !.tcall = Del(@, {e[4]})]
      [] nm = "st" /\ e[8] = "tm" ->
            LET k == e[9] r == s.tm[k]
                leftover == r.left > 0 /\ (~May(r.lv) \/ Now(e) < TmDue(r))
            IN [s EXCEPT !.tm[k].left = IF leftover THEN 0 ELSE r.left,
                         !.tm[k].calls = IF leftover THEN r.calls ELSE r.calls + 1,
                         !.tm[k].last = Now(e),
                         !.tm[k].ivp = r.iv, !.tm[k].iv = r.cur \cup {f[2] : f \in r.fly}]
      [] OTHER -> s
=============================================================================
