----------------------------- MODULE TimerHelper -----------------------------
(* naive_timer: every resume which makes the timer runnable sends a helper to
   the pool; it sleeps, queues one call, waits for it and sleeps again. Time
   passes when nothing else can happen. The handler takes Dur and may suspend or
   cancel the timer (Within) from its first call.
   The queue is occupied until Busy.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Interval, Dur, Busy, Within, Helpers, Mut

Users == DOMAIN Script
(* <<what, argument>> *)
Res(d) == <<"res", d>>
Sus    == <<"sus", 0>>
Can    == <<"can", 0>>
Nap(t) == <<"nap", t>>
Iv(v)  == <<"int", v>>
Script1 == << <<Res(1), Nap(2), Sus, Res(1), Nap(4), Can, Res(0)>> >>
Script2 == << <<Res(0), Nap(1), Can>>, <<Nap(1), Can, Res(1)>> >>
Script3 == << <<Res(1), Res(1), Nap(3), Sus, Nap(2), Can>>, <<Nap(2), Iv(3)>> >>
Script4 == << <<Res(2), Nap(9)>> >>
Script6 == << <<Res(0), Nap(1), Sus, Res(0), Nap(6)>> >>
Script7 == << <<Res(0), Nap(1), Sus, Res(0), Nap(1), Sus, Res(0), Nap(6)>> >>
Script5 == << <<Res(1), Nap(1), Sus, Res(2), Nap(3), Sus, Nap(6)>> >>

(* --algorithm TimerHelper
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>>,
                     <<"tc", 0, 0, 0, Interval, 0>> >>),
    now = 0, running = 0, cookie = 0, cancelled = FALSE, interval = Interval,
    pcall = 0, finished = {}, posts = {}, jobs = <<>>,
    disabled = FALSE, inside = FALSE,      \* the cancelable
    calls = 0, nc = 0, nk = 0, nx = 0, wake = [p \in {} |-> 0], hc = [p \in Helpers |-> 0], over = FALSE;
define
    Sleeping(p) == Has(wake, p) /\ wake[p] > now
    Asleep == {p \in DOMAIN wake : wake[p] > now}
end define;
macro ev(e) begin mon := Mon(mon, e) end macro;
macro suspend() begin running := running - 1 end macro;

process user \in Users
variables i = 1, c = 0;
begin
u1: while i <= Len(Script[self]) do
        if Script[self][i][1] = "nap" then
            wake := Put(wake, self, now + Script[self][i][2]);
u2:         await ~Sleeping(self);
        else
            c := nk + 1; nk := nk + 1;
            if Script[self][i][1] = "res" then
                ev(<<"tres", self, now, c, 0, Script[self][i][2]>>);
u3:             if ~cancelled then
                    running := running + 1;
                    if running = 1 then
                        cookie := cookie + 1;
                        posts := posts \cup {[d |-> Script[self][i][2], k |-> cookie]}
                    end if
                end if;
u4:             ev(<<"tresr", self, now, c, 0>>);
            elsif Script[self][i][1] = "sus" then
                ev(<<"tsus", self, now, c, 0>>);
u5:             suspend();
                ev(<<"tsusr", self, now, c, 0>>);
            elsif Script[self][i][1] = "int" then
                ev(<<"tint", self, now, c, 0, Script[self][i][2]>>);
ua:             interval := Script[self][i][2];
                ev(<<"tintr", self, now, c, 0, Script[self][i][2]>>);
            else
                ev(<<"tcan", self, now, c, 0>>);
u6:             running := 0; cancelled := TRUE;
ub:             disabled := TRUE;
u7:             await ~inside \/ Mut = "cancel-no-wait";
u8:             ev(<<"tcanr", self, now, c, 0>>);
            end if;
        end if;
u9:     i := i + 1;
    end while;
end process;

process helper \in Helpers
variables j = [d |-> 0, k |-> 0], iv = 0;
begin
h1: await posts # {} \/ over;
    if over then goto Done else
        with p \in posts do
            j := p; posts := posts \ {p};
            wake := Put(wake, self, now + IF Mut = "no-delay" THEN 0 ELSE p.d)
        end with
    end if;
h2: await ~Sleeping(self);
h3: if running > 0 /\ (cookie = j.k \/ Mut = "no-cookie") then
        if pcall # 0 /\ Mut # "no-pending" then
            hc[self] := pcall;
h4:         await hc[self] \in finished; goto h3
        else
            iv := interval;
            nc := nc + 1; hc[self] := nc; pcall := nc;
            jobs := Append(jobs, nc);
h5:         await hc[self] \in finished;
            if iv > 0 then
                wake := Put(wake, self, now + iv);
                goto h2
            elsif Mut = "again" then goto h2 end if
        end if
    end if;
h6: goto h1;
end process;

process exec = 90
variables xc = 0, x = 0, wc = 0;
begin
x0: wake := Put(wake, 90, Busy);    \* the queue is occupied for a while
xw: await ~Sleeping(90);
x1: await jobs # <<>> \/ over;
    if over then goto Done else xc := Head(jobs); jobs := Tail(jobs) end if;
x2: if ~disabled then
        inside := TRUE;
x3:     nx := nx + 1; x := nx; calls := calls + 1;
        ev(<<"st", 90, now, x, 0, 1, -1, "tm", 0, 0>>);
x4:     if calls = 1 /\ Within = "sus" then
            nk := nk + 1; wc := nk; ev(<<"tsus", 90, now, wc, 0>>);
x5:         suspend();
            ev(<<"tsusr", 90, now, wc, 0>>);
        elsif calls = 1 /\ Within = "can" then
            nk := nk + 1; wc := nk; ev(<<"tcan", 90, now, wc, 0>>);
x6:         running := 0; cancelled := TRUE; disabled := TRUE;
            ev(<<"tcanr", 90, now, wc, 0>>);
        end if;
x7:     wake := Put(wake, 90, now + Dur);
x8:     await ~Sleeping(90);
        ev(<<"en", 90, now, x>>);
x9:     inside := FALSE;
    end if;
xa: pcall := 0;
xb: finished := finished \cup {xc};
    goto x1;
end process;

process clock = 100
begin
k1: while ~over do
        await
        /\ \A p \in Users : pc[p] = "Done" \/ Sleeping(p) \/ (pc[p] = "u7" /\ inside)
        /\ \A p \in Helpers : \/ pc[p] = "h1" /\ posts = {}
                              \/ Sleeping(p)
                              \/ pc[p] \in {"h4", "h5"} /\ hc[p] \notin finished
        /\ \/ pc[90] = "x1" /\ jobs = <<>>
           \/ Sleeping(90);
        if Asleep # {} then
            ev(<<"idle", 0, now>>);
            now := MinOf({wake[p] : p \in Asleep});
        else
            mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)];
            over := TRUE
        end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, now, running, cookie, cancelled, interval, pcall, finished, 
          posts, jobs, disabled, inside, calls, nc, nk, nx, wake, hc, over

(* define statement *)
Sleeping(p) == Has(wake, p) /\ wake[p] > now
Asleep == {p \in DOMAIN wake : wake[p] > now}

VARIABLES i, c, j, iv, xc, x, wc

vars == << pc, mon, now, running, cookie, cancelled, interval, pcall, 
           finished, posts, jobs, disabled, inside, calls, nc, nk, nx, wake, 
           hc, over, i, c, j, iv, xc, x, wc >>

ProcSet == (Users) \cup (Helpers) \cup {90} \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>>,
                            <<"tc", 0, 0, 0, Interval, 0>> >>)
        /\ now = 0
        /\ running = 0
        /\ cookie = 0
        /\ cancelled = FALSE
        /\ interval = Interval
        /\ pcall = 0
        /\ finished = {}
        /\ posts = {}
        /\ jobs = <<>>
        /\ disabled = FALSE
        /\ inside = FALSE
        /\ calls = 0
        /\ nc = 0
        /\ nk = 0
        /\ nx = 0
        /\ wake = [p \in {} |-> 0]
        /\ hc = [p \in Helpers |-> 0]
        /\ over = FALSE
        (* Process user *)
        /\ i = [self \in Users |-> 1]
        /\ c = [self \in Users |-> 0]
        (* Process helper *)
        /\ j = [self \in Helpers |-> [d |-> 0, k |-> 0]]
        /\ iv = [self \in Helpers |-> 0]
        (* Process exec *)
        /\ xc = 0
        /\ x = 0
        /\ wc = 0
        /\ pc = [self \in ProcSet |-> CASE self \in Users -> "u1"
                                        [] self \in Helpers -> "h1"
                                        [] self = 90 -> "x0"
                                        [] self = 100 -> "k1"]

u1(self) == /\ pc[self] = "u1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ IF Script[self][i[self]][1] = "nap"
                             THEN /\ wake' = Put(wake, self, now + Script[self][i[self]][2])
                                  /\ pc' = [pc EXCEPT ![self] = "u2"]
                                  /\ UNCHANGED << mon, nk, c >>
                             ELSE /\ c' = [c EXCEPT ![self] = nk + 1]
                                  /\ nk' = nk + 1
                                  /\ IF Script[self][i[self]][1] = "res"
                                        THEN /\ mon' = Mon(mon, (<<"tres", self, now, c'[self], 0, Script[self][i[self]][2]>>))
                                             /\ pc' = [pc EXCEPT ![self] = "u3"]
                                        ELSE /\ IF Script[self][i[self]][1] = "sus"
                                                   THEN /\ mon' = Mon(mon, (<<"tsus", self, now, c'[self], 0>>))
                                                        /\ pc' = [pc EXCEPT ![self] = "u5"]
                                                   ELSE /\ IF Script[self][i[self]][1] = "int"
                                                              THEN /\ mon' = Mon(mon, (<<"tint", self, now, c'[self], 0, Script[self][i[self]][2]>>))
                                                                   /\ pc' = [pc EXCEPT ![self] = "ua"]
                                                              ELSE /\ mon' = Mon(mon, (<<"tcan", self, now, c'[self], 0>>))
                                                                   /\ pc' = [pc EXCEPT ![self] = "u6"]
                                  /\ wake' = wake
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, nk, wake, c >>
            /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nx, hc, over, i, j, iv, xc, x, wc >>

u9(self) == /\ pc[self] = "u9"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, c, j, iv, xc, x, 
                            wc >>

u2(self) == /\ pc[self] = "u2"
            /\ ~Sleeping(self)
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, i, c, j, iv, xc, 
                            x, wc >>

u3(self) == /\ pc[self] = "u3"
            /\ IF ~cancelled
                  THEN /\ running' = running + 1
                       /\ IF running' = 1
                             THEN /\ cookie' = cookie + 1
                                  /\ posts' = (posts \cup {[d |-> Script[self][i[self]][2], k |-> cookie']})
                             ELSE /\ TRUE
                                  /\ UNCHANGED << cookie, posts >>
                  ELSE /\ TRUE
                       /\ UNCHANGED << running, cookie, posts >>
            /\ pc' = [pc EXCEPT ![self] = "u4"]
            /\ UNCHANGED << mon, now, cancelled, interval, pcall, finished, 
                            jobs, disabled, inside, calls, nc, nk, nx, wake, 
                            hc, over, i, c, j, iv, xc, x, wc >>

u4(self) == /\ pc[self] = "u4"
            /\ mon' = Mon(mon, (<<"tresr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, j, iv, xc, x, wc >>

u5(self) == /\ pc[self] = "u5"
            /\ running' = running - 1
            /\ mon' = Mon(mon, (<<"tsusr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, cookie, cancelled, interval, pcall, finished, 
                            posts, jobs, disabled, inside, calls, nc, nk, nx, 
                            wake, hc, over, i, c, j, iv, xc, x, wc >>

ua(self) == /\ pc[self] = "ua"
            /\ interval' = Script[self][i[self]][2]
            /\ mon' = Mon(mon, (<<"tintr", self, now, c[self], 0, Script[self][i[self]][2]>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, running, cookie, cancelled, pcall, finished, 
                            posts, jobs, disabled, inside, calls, nc, nk, nx, 
                            wake, hc, over, i, c, j, iv, xc, x, wc >>

u6(self) == /\ pc[self] = "u6"
            /\ running' = 0
            /\ cancelled' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "ub"]
            /\ UNCHANGED << mon, now, cookie, interval, pcall, finished, posts, 
                            jobs, disabled, inside, calls, nc, nk, nx, wake, 
                            hc, over, i, c, j, iv, xc, x, wc >>

ub(self) == /\ pc[self] = "ub"
            /\ disabled' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "u7"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, j, iv, xc, x, wc >>

u7(self) == /\ pc[self] = "u7"
            /\ ~inside \/ Mut = "cancel-no-wait"
            /\ pc' = [pc EXCEPT ![self] = "u8"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, i, c, j, iv, xc, 
                            x, wc >>

u8(self) == /\ pc[self] = "u8"
            /\ mon' = Mon(mon, (<<"tcanr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, j, iv, xc, x, wc >>

user(self) == u1(self) \/ u9(self) \/ u2(self) \/ u3(self) \/ u4(self)
                 \/ u5(self) \/ ua(self) \/ u6(self) \/ ub(self)
                 \/ u7(self) \/ u8(self)

h1(self) == /\ pc[self] = "h1"
            /\ posts # {} \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << posts, wake, j >>
                  ELSE /\ \E p \in posts:
                            /\ j' = [j EXCEPT ![self] = p]
                            /\ posts' = posts \ {p}
                            /\ wake' = Put(wake, self, now + IF Mut = "no-delay" THEN 0 ELSE p.d)
                       /\ pc' = [pc EXCEPT ![self] = "h2"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, jobs, disabled, inside, calls, nc, 
                            nk, nx, hc, over, i, c, iv, xc, x, wc >>

h2(self) == /\ pc[self] = "h2"
            /\ ~Sleeping(self)
            /\ pc' = [pc EXCEPT ![self] = "h3"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, i, c, j, iv, xc, 
                            x, wc >>

h3(self) == /\ pc[self] = "h3"
            /\ IF running > 0 /\ (cookie = j[self].k \/ Mut = "no-cookie")
                  THEN /\ IF pcall # 0 /\ Mut # "no-pending"
                             THEN /\ hc' = [hc EXCEPT ![self] = pcall]
                                  /\ pc' = [pc EXCEPT ![self] = "h4"]
                                  /\ UNCHANGED << pcall, jobs, nc, iv >>
                             ELSE /\ iv' = [iv EXCEPT ![self] = interval]
                                  /\ nc' = nc + 1
                                  /\ hc' = [hc EXCEPT ![self] = nc']
                                  /\ pcall' = nc'
                                  /\ jobs' = Append(jobs, nc')
                                  /\ pc' = [pc EXCEPT ![self] = "h5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "h6"]
                       /\ UNCHANGED << pcall, jobs, nc, hc, iv >>
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            finished, posts, disabled, inside, calls, nk, nx, 
                            wake, over, i, c, j, xc, x, wc >>

h4(self) == /\ pc[self] = "h4"
            /\ hc[self] \in finished
            /\ pc' = [pc EXCEPT ![self] = "h3"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, i, c, j, iv, xc, 
                            x, wc >>

h5(self) == /\ pc[self] = "h5"
            /\ hc[self] \in finished
            /\ IF iv[self] > 0
                  THEN /\ wake' = Put(wake, self, now + iv[self])
                       /\ pc' = [pc EXCEPT ![self] = "h2"]
                  ELSE /\ IF Mut = "again"
                             THEN /\ pc' = [pc EXCEPT ![self] = "h2"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "h6"]
                       /\ wake' = wake
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, hc, over, i, c, j, iv, xc, x, 
                            wc >>

h6(self) == /\ pc[self] = "h6"
            /\ pc' = [pc EXCEPT ![self] = "h1"]
            /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, 
                            pcall, finished, posts, jobs, disabled, inside, 
                            calls, nc, nk, nx, wake, hc, over, i, c, j, iv, xc, 
                            x, wc >>

helper(self) == h1(self) \/ h2(self) \/ h3(self) \/ h4(self) \/ h5(self)
                   \/ h6(self)

x0 == /\ pc[90] = "x0"
      /\ wake' = Put(wake, 90, Busy)
      /\ pc' = [pc EXCEPT ![90] = "xw"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, calls, nc, nk, 
                      nx, hc, over, i, c, j, iv, xc, x, wc >>

xw == /\ pc[90] = "xw"
      /\ ~Sleeping(90)
      /\ pc' = [pc EXCEPT ![90] = "x1"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, calls, nc, nk, 
                      nx, wake, hc, over, i, c, j, iv, xc, x, wc >>

x1 == /\ pc[90] = "x1"
      /\ jobs # <<>> \/ over
      /\ IF over
            THEN /\ pc' = [pc EXCEPT ![90] = "Done"]
                 /\ UNCHANGED << jobs, xc >>
            ELSE /\ xc' = Head(jobs)
                 /\ jobs' = Tail(jobs)
                 /\ pc' = [pc EXCEPT ![90] = "x2"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, disabled, inside, calls, nc, nk, nx, 
                      wake, hc, over, i, c, j, iv, x, wc >>

x2 == /\ pc[90] = "x2"
      /\ IF ~disabled
            THEN /\ inside' = TRUE
                 /\ pc' = [pc EXCEPT ![90] = "x3"]
            ELSE /\ pc' = [pc EXCEPT ![90] = "xa"]
                 /\ UNCHANGED inside
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, calls, nc, nk, nx, wake, 
                      hc, over, i, c, j, iv, xc, x, wc >>

x3 == /\ pc[90] = "x3"
      /\ nx' = nx + 1
      /\ x' = nx'
      /\ calls' = calls + 1
      /\ mon' = Mon(mon, (<<"st", 90, now, x', 0, 1, -1, "tm", 0, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x4"]
      /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, nc, nk, wake, 
                      hc, over, i, c, j, iv, xc, wc >>

x4 == /\ pc[90] = "x4"
      /\ IF calls = 1 /\ Within = "sus"
            THEN /\ nk' = nk + 1
                 /\ wc' = nk'
                 /\ mon' = Mon(mon, (<<"tsus", 90, now, wc', 0>>))
                 /\ pc' = [pc EXCEPT ![90] = "x5"]
            ELSE /\ IF calls = 1 /\ Within = "can"
                       THEN /\ nk' = nk + 1
                            /\ wc' = nk'
                            /\ mon' = Mon(mon, (<<"tcan", 90, now, wc', 0>>))
                            /\ pc' = [pc EXCEPT ![90] = "x6"]
                       ELSE /\ pc' = [pc EXCEPT ![90] = "x7"]
                            /\ UNCHANGED << mon, nk, wc >>
      /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, calls, nc, nx, 
                      wake, hc, over, i, c, j, iv, xc, x >>

x5 == /\ pc[90] = "x5"
      /\ running' = running - 1
      /\ mon' = Mon(mon, (<<"tsusr", 90, now, wc, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x7"]
      /\ UNCHANGED << now, cookie, cancelled, interval, pcall, finished, posts, 
                      jobs, disabled, inside, calls, nc, nk, nx, wake, hc, 
                      over, i, c, j, iv, xc, x, wc >>

x6 == /\ pc[90] = "x6"
      /\ running' = 0
      /\ cancelled' = TRUE
      /\ disabled' = TRUE
      /\ mon' = Mon(mon, (<<"tcanr", 90, now, wc, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x7"]
      /\ UNCHANGED << now, cookie, interval, pcall, finished, posts, jobs, 
                      inside, calls, nc, nk, nx, wake, hc, over, i, c, j, iv, 
                      xc, x, wc >>

x7 == /\ pc[90] = "x7"
      /\ wake' = Put(wake, 90, now + Dur)
      /\ pc' = [pc EXCEPT ![90] = "x8"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, calls, nc, nk, 
                      nx, hc, over, i, c, j, iv, xc, x, wc >>

x8 == /\ pc[90] = "x8"
      /\ ~Sleeping(90)
      /\ mon' = Mon(mon, (<<"en", 90, now, x>>))
      /\ pc' = [pc EXCEPT ![90] = "x9"]
      /\ UNCHANGED << now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, inside, calls, nc, nk, 
                      nx, wake, hc, over, i, c, j, iv, xc, x, wc >>

x9 == /\ pc[90] = "x9"
      /\ inside' = FALSE
      /\ pc' = [pc EXCEPT ![90] = "xa"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      finished, posts, jobs, disabled, calls, nc, nk, nx, wake, 
                      hc, over, i, c, j, iv, xc, x, wc >>

xa == /\ pc[90] = "xa"
      /\ pcall' = 0
      /\ pc' = [pc EXCEPT ![90] = "xb"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, finished, 
                      posts, jobs, disabled, inside, calls, nc, nk, nx, wake, 
                      hc, over, i, c, j, iv, xc, x, wc >>

xb == /\ pc[90] = "xb"
      /\ finished' = (finished \cup {xc})
      /\ pc' = [pc EXCEPT ![90] = "x1"]
      /\ UNCHANGED << mon, now, running, cookie, cancelled, interval, pcall, 
                      posts, jobs, disabled, inside, calls, nc, nk, nx, wake, 
                      hc, over, i, c, j, iv, xc, x, wc >>

exec == x0 \/ xw \/ x1 \/ x2 \/ x3 \/ x4 \/ x5 \/ x6 \/ x7 \/ x8 \/ x9
           \/ xa \/ xb

k1 == /\ pc[100] = "k1"
      /\ IF ~over
            THEN /\ /\ \A p \in Users : pc[p] = "Done" \/ Sleeping(p) \/ (pc[p] = "u7" /\ inside)
                    /\ \A p \in Helpers : \/ pc[p] = "h1" /\ posts = {}
                                          \/ Sleeping(p)
                                          \/ pc[p] \in {"h4", "h5"} /\ hc[p] \notin finished
                    /\ \/ pc[90] = "x1" /\ jobs = <<>>
                       \/ Sleeping(90)
                 /\ IF Asleep # {}
                       THEN /\ mon' = Mon(mon, (<<"idle", 0, now>>))
                            /\ now' = MinOf({wake[p] : p \in Asleep})
                            /\ over' = over
                       ELSE /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)]
                            /\ over' = TRUE
                            /\ now' = now
                 /\ pc' = [pc EXCEPT ![100] = "k1"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "Done"]
                 /\ UNCHANGED << mon, now, over >>
      /\ UNCHANGED << running, cookie, cancelled, interval, pcall, finished, 
                      posts, jobs, disabled, inside, calls, nc, nk, nx, wake, 
                      hc, i, c, j, iv, xc, x, wc >>

clock == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == exec \/ clock
           \/ (\E self \in Users: user(self))
           \/ (\E self \in Helpers: helper(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Sane  == pcall # 0 => pcall \notin finished
(* periodic timers run for as long as a program lets them *)
Bound == now <= 14
=============================================================================
