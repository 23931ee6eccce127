--------------------------- MODULE NotifierHelper ---------------------------
(* naive_socket_notifier: every resume which makes the notifier runnable sends
   a helper to the pool; it polls (for at most Poll), queues one call, waits for
   it and polls again. A suspend makes helpers end by changing the cookie. The
   handler takes Dur, then reads one byte; it may suspend or cancel the notifier
   (Within) in its first call. Time passes when nothing else can happen.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Dur, Within, Helpers, Mut

Users == DOMAIN Script
Poll == 5
Res    == <<"res", 0>>
Sus    == <<"sus", 0>>
Can    == <<"can", 0>>
Wr     == <<"wr", 0>>
Cl     == <<"cl", 0>>
Nap(t) == <<"nap", t>>
Script1 == << <<Res, Wr, Wr, Nap(9)>> >>
Script2 == << <<Res, Nap(7), Wr, Sus, Nap(1), Res, Nap(2)>>, <<Nap(7), Wr>> >>
Script3 == << <<Wr, Res, Nap(1), Can, Res>>, <<Nap(1), Can>> >>
Script4 == << <<Res, Res, Sus, Wr, Nap(3), Sus, Wr, Nap(2)>> >>
Script5 == << <<Wr, Res, Sus, Res, Nap(2), Sus, Nap(2)>>, <<Wr>> >>
Script7 == << <<Res, Nap(7), Wr, Nap(2)>> >>
Script8 == << <<Res, Wr, Can, Nap(1), Wr>> >>
Script6 == << <<Wr, Wr, Res, Nap(2), Cl, Nap(6)>> >>

(* --algorithm NotifierHelper
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>>,
                     <<"nc", 0, 0, 0, 0, 0, 0>> >>),
    now = 0, resumed = 0, cookie = 0, data = 0, closed = FALSE,
    pcall = 0, finished = {}, posts = {}, jobs = <<>>,
    disabled = FALSE, inside = FALSE,
    calls = 0, nc = 0, nk = 0, nx = 0, wake = [p \in {} |-> 0], hc = [p \in Helpers |-> 0], over = FALSE;
define
    Sleeping(p) == Has(wake, p) /\ wake[p] > now
    Asleep == {p \in DOMAIN wake : wake[p] > now}
    Readable == data > 0 /\ ~closed
end define;
macro ev(e) begin mon := Mon(mon, e) end macro;
macro suspend() begin
    if resumed > 0 then
        if resumed = 1 /\ Mut # "no-cookie" then cookie := cookie + 1 end if;
        resumed := resumed - 1
    end if
end macro;

process user \in Users
variables i = 1, c = 0;
begin
u1: while i <= Len(Script[self]) do
        if Script[self][i][1] = "nap" then
            wake := Put(wake, self, now + Script[self][i][2]);
u2:         await ~Sleeping(self);
        elsif Script[self][i][1] = "wr" then
            data := data + 1; ev(<<"sw", self, now, 0, 1>>);
        elsif Script[self][i][1] = "cl" then
            closed := TRUE; ev(<<"scl", self, now, 0>>);
        else
            c := nk + 1; nk := nk + 1;
            if Script[self][i][1] = "res" then
                ev(<<"nres", self, now, c, 0>>);
u3:             if resumed >= 0 \/ Mut = "revive" then
                    resumed := IF resumed < 0 THEN 1 ELSE resumed + 1;
                    if resumed = 1 then posts := posts \cup {cookie} end if
                end if;
u4:             ev(<<"nresr", self, now, c, 0>>);
            elsif Script[self][i][1] = "sus" then
                ev(<<"nsus", self, now, c, 0>>);
u5:             suspend();
u6:             ev(<<"nsusr", self, now, c, 0>>);
            else
                ev(<<"ncan", self, now, c, 0>>);
u7:             resumed := -1; cookie := cookie + 1;
ub:             disabled := Mut # "no-disable";
ud:             await ~inside \/ Mut = "cancel-no-wait";
u8:             ev(<<"ncanr", self, now, c, 0>>);
            end if;
        end if;
u9:     i := i + 1;
    end while;
end process;

process helper \in Helpers
variables k = 0, res = 0;
begin
h1: await posts # {} \/ over;
    if over then goto Done else
        with p \in posts do k := p; posts := posts \ {p} end with
    end if;
h2: if cookie = k then
        if pcall # 0 /\ Mut # "no-wait" then
            hc[self] := pcall;
h3:         await hc[self] \in finished; goto h2
        else
            wake := Put(wake, self, now + Poll);
h4:         await Readable \/ closed \/ ~Sleeping(self);
            res := IF closed THEN -1 ELSE IF Readable THEN 1 ELSE 0;
            wake := Put(wake, self, now);
h5:         if cookie # k /\ Mut # "no-recheck" then goto h1
            elsif res < 0 then goto h1
            elsif res = 0 then
                if Mut = "timeout-ends" then goto h1 else goto h2 end if
            else
                nc := nc + 1; hc[self] := nc;
                pcall := nc;
                jobs := Append(jobs, nc);
h6:             if Mut # "no-wait" then await hc[self] \in finished end if;
h7:             goto h2
            end if
        end if
    end if;
h8: goto h1;
end process;

process exec = 90
variables xc = 0, x = 0, wc = 0;
begin
x1: await jobs # <<>> \/ over;
    if over then goto Done else xc := Head(jobs); jobs := Tail(jobs) end if;
x2: if ~disabled then
        inside := TRUE;
x3:     nx := nx + 1; x := nx; calls := calls + 1;
        ev(<<"st", 90, now, x, 0, 1, -1, "nt", 0, 0>>);
x4:     if calls = 1 /\ Within = "sus" then
            nk := nk + 1; wc := nk; ev(<<"nsus", 90, now, wc, 0>>);
x5:         suspend();
            ev(<<"nsusr", 90, now, wc, 0>>);
        elsif calls = 1 /\ Within = "can" then
            nk := nk + 1; wc := nk; ev(<<"ncan", 90, now, wc, 0>>);
x6:         resumed := -1; cookie := cookie + 1; disabled := TRUE;
            ev(<<"ncanr", 90, now, wc, 0>>);
        end if;
x7:     wake := Put(wake, 90, now + Dur);
x8:     await ~Sleeping(90);
        if data > 0 /\ ~closed then
            data := data - 1; ev(<<"sd", 90, now, 0, IF data > 0 THEN 1 ELSE 0>>)
        end if;
xe:     ev(<<"en", 90, now, x>>);
x9:     inside := FALSE;
    end if;
xa: pcall := 0;
xb: finished := finished \cup {xc};
    goto x1;
end process;

process clock = 100
begin
k1: while ~over do
        await
        /\ \A p \in Users : pc[p] = "Done" \/ Sleeping(p) \/ (pc[p] = "ud" /\ inside)
        /\ \A p \in Helpers : \/ pc[p] = "h1" /\ posts = {}
                              \/ pc[p] = "h4" /\ Sleeping(p) /\ ~Readable /\ ~closed
                              \/ pc[p] \in {"h3", "h6"} /\ hc[p] \notin finished
        /\ \/ pc[90] = "x1" /\ jobs = <<>>
           \/ Sleeping(90);
        if \E p \in Asleep : p \notin Helpers then
            (* what polls again for ever is no reason for time to pass *)
            ev(<<"idle", 0, now>>);
            now := MinOf({wake[p] : p \in Asleep});
        else
            mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)];
            over := TRUE
        end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, now, resumed, cookie, data, closed, pcall, finished, posts, 
          jobs, disabled, inside, calls, nc, nk, nx, wake, hc, over

(* define statement *)
Sleeping(p) == Has(wake, p) /\ wake[p] > now
Asleep == {p \in DOMAIN wake : wake[p] > now}
Readable == data > 0 /\ ~closed

VARIABLES i, c, k, res, xc, x, wc

vars == << pc, mon, now, resumed, cookie, data, closed, pcall, finished, 
           posts, jobs, disabled, inside, calls, nc, nk, nx, wake, hc, over, 
           i, c, k, res, xc, x, wc >>

ProcSet == (Users) \cup (Helpers) \cup {90} \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>>,
                            <<"nc", 0, 0, 0, 0, 0, 0>> >>)
        /\ now = 0
        /\ resumed = 0
        /\ cookie = 0
        /\ data = 0
        /\ closed = FALSE
        /\ pcall = 0
        /\ finished = {}
        /\ posts = {}
        /\ jobs = <<>>
        /\ disabled = FALSE
        /\ inside = FALSE
        /\ calls = 0
        /\ nc = 0
        /\ nk = 0
        /\ nx = 0
        /\ wake = [p \in {} |-> 0]
        /\ hc = [p \in Helpers |-> 0]
        /\ over = FALSE
        (* Process user *)
        /\ i = [self \in Users |-> 1]
        /\ c = [self \in Users |-> 0]
        (* Process helper *)
        /\ k = [self \in Helpers |-> 0]
        /\ res = [self \in Helpers |-> 0]
        (* Process exec *)
        /\ xc = 0
        /\ x = 0
        /\ wc = 0
        /\ pc = [self \in ProcSet |-> CASE self \in Users -> "u1"
                                        [] self \in Helpers -> "h1"
                                        [] self = 90 -> "x1"
                                        [] self = 100 -> "k1"]

u1(self) == /\ pc[self] = "u1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ IF Script[self][i[self]][1] = "nap"
                             THEN /\ wake' = Put(wake, self, now + Script[self][i[self]][2])
                                  /\ pc' = [pc EXCEPT ![self] = "u2"]
                                  /\ UNCHANGED << mon, data, closed, nk, c >>
                             ELSE /\ IF Script[self][i[self]][1] = "wr"
                                        THEN /\ data' = data + 1
                                             /\ mon' = Mon(mon, (<<"sw", self, now, 0, 1>>))
                                             /\ pc' = [pc EXCEPT ![self] = "u9"]
                                             /\ UNCHANGED << closed, nk, c >>
                                        ELSE /\ IF Script[self][i[self]][1] = "cl"
                                                   THEN /\ closed' = TRUE
                                                        /\ mon' = Mon(mon, (<<"scl", self, now, 0>>))
                                                        /\ pc' = [pc EXCEPT ![self] = "u9"]
                                                        /\ UNCHANGED << nk, c >>
                                                   ELSE /\ c' = [c EXCEPT ![self] = nk + 1]
                                                        /\ nk' = nk + 1
                                                        /\ IF Script[self][i[self]][1] = "res"
                                                              THEN /\ mon' = Mon(mon, (<<"nres", self, now, c'[self], 0>>))
                                                                   /\ pc' = [pc EXCEPT ![self] = "u3"]
                                                              ELSE /\ IF Script[self][i[self]][1] = "sus"
                                                                         THEN /\ mon' = Mon(mon, (<<"nsus", self, now, c'[self], 0>>))
                                                                              /\ pc' = [pc EXCEPT ![self] = "u5"]
                                                                         ELSE /\ mon' = Mon(mon, (<<"ncan", self, now, c'[self], 0>>))
                                                                              /\ pc' = [pc EXCEPT ![self] = "u7"]
                                                        /\ UNCHANGED closed
                                             /\ data' = data
                                  /\ wake' = wake
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, data, closed, nk, wake, c >>
            /\ UNCHANGED << now, resumed, cookie, pcall, finished, posts, jobs, 
                            disabled, inside, calls, nc, nx, hc, over, i, k, 
                            res, xc, x, wc >>

u9(self) == /\ pc[self] = "u9"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, c, k, res, xc, x, wc >>

u2(self) == /\ pc[self] = "u2"
            /\ ~Sleeping(self)
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

u3(self) == /\ pc[self] = "u3"
            /\ IF resumed >= 0 \/ Mut = "revive"
                  THEN /\ resumed' = (IF resumed < 0 THEN 1 ELSE resumed + 1)
                       /\ IF resumed' = 1
                             THEN /\ posts' = (posts \cup {cookie})
                             ELSE /\ TRUE
                                  /\ posts' = posts
                  ELSE /\ TRUE
                       /\ UNCHANGED << resumed, posts >>
            /\ pc' = [pc EXCEPT ![self] = "u4"]
            /\ UNCHANGED << mon, now, cookie, data, closed, pcall, finished, 
                            jobs, disabled, inside, calls, nc, nk, nx, wake, 
                            hc, over, i, c, k, res, xc, x, wc >>

u4(self) == /\ pc[self] = "u4"
            /\ mon' = Mon(mon, (<<"nresr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

u5(self) == /\ pc[self] = "u5"
            /\ IF resumed > 0
                  THEN /\ IF resumed = 1 /\ Mut # "no-cookie"
                             THEN /\ cookie' = cookie + 1
                             ELSE /\ TRUE
                                  /\ UNCHANGED cookie
                       /\ resumed' = resumed - 1
                  ELSE /\ TRUE
                       /\ UNCHANGED << resumed, cookie >>
            /\ pc' = [pc EXCEPT ![self] = "u6"]
            /\ UNCHANGED << mon, now, data, closed, pcall, finished, posts, 
                            jobs, disabled, inside, calls, nc, nk, nx, wake, 
                            hc, over, i, c, k, res, xc, x, wc >>

u6(self) == /\ pc[self] = "u6"
            /\ mon' = Mon(mon, (<<"nsusr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

u7(self) == /\ pc[self] = "u7"
            /\ resumed' = -1
            /\ cookie' = cookie + 1
            /\ pc' = [pc EXCEPT ![self] = "ub"]
            /\ UNCHANGED << mon, now, data, closed, pcall, finished, posts, 
                            jobs, disabled, inside, calls, nc, nk, nx, wake, 
                            hc, over, i, c, k, res, xc, x, wc >>

ub(self) == /\ pc[self] = "ub"
            /\ disabled' = (Mut # "no-disable")
            /\ pc' = [pc EXCEPT ![self] = "ud"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, inside, calls, nc, nk, nx, 
                            wake, hc, over, i, c, k, res, xc, x, wc >>

ud(self) == /\ pc[self] = "ud"
            /\ ~inside \/ Mut = "cancel-no-wait"
            /\ pc' = [pc EXCEPT ![self] = "u8"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

u8(self) == /\ pc[self] = "u8"
            /\ mon' = Mon(mon, (<<"ncanr", self, now, c[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "u9"]
            /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

user(self) == u1(self) \/ u9(self) \/ u2(self) \/ u3(self) \/ u4(self)
                 \/ u5(self) \/ u6(self) \/ u7(self) \/ ub(self)
                 \/ ud(self) \/ u8(self)

h1(self) == /\ pc[self] = "h1"
            /\ posts # {} \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << posts, k >>
                  ELSE /\ \E p \in posts:
                            /\ k' = [k EXCEPT ![self] = p]
                            /\ posts' = posts \ {p}
                       /\ pc' = [pc EXCEPT ![self] = "h2"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, jobs, disabled, inside, calls, nc, nk, 
                            nx, wake, hc, over, i, c, res, xc, x, wc >>

h2(self) == /\ pc[self] = "h2"
            /\ IF cookie = k[self]
                  THEN /\ IF pcall # 0 /\ Mut # "no-wait"
                             THEN /\ hc' = [hc EXCEPT ![self] = pcall]
                                  /\ pc' = [pc EXCEPT ![self] = "h3"]
                                  /\ wake' = wake
                             ELSE /\ wake' = Put(wake, self, now + Poll)
                                  /\ pc' = [pc EXCEPT ![self] = "h4"]
                                  /\ hc' = hc
                  ELSE /\ pc' = [pc EXCEPT ![self] = "h8"]
                       /\ UNCHANGED << wake, hc >>
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, over, i, c, k, res, xc, x, wc >>

h3(self) == /\ pc[self] = "h3"
            /\ hc[self] \in finished
            /\ pc' = [pc EXCEPT ![self] = "h2"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

h4(self) == /\ pc[self] = "h4"
            /\ Readable \/ closed \/ ~Sleeping(self)
            /\ res' = [res EXCEPT ![self] = IF closed THEN -1 ELSE IF Readable THEN 1 ELSE 0]
            /\ wake' = Put(wake, self, now)
            /\ pc' = [pc EXCEPT ![self] = "h5"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, hc, over, i, c, k, xc, x, wc >>

h5(self) == /\ pc[self] = "h5"
            /\ IF cookie # k[self] /\ Mut # "no-recheck"
                  THEN /\ pc' = [pc EXCEPT ![self] = "h1"]
                       /\ UNCHANGED << pcall, jobs, nc, hc >>
                  ELSE /\ IF res[self] < 0
                             THEN /\ pc' = [pc EXCEPT ![self] = "h1"]
                                  /\ UNCHANGED << pcall, jobs, nc, hc >>
                             ELSE /\ IF res[self] = 0
                                        THEN /\ IF Mut = "timeout-ends"
                                                   THEN /\ pc' = [pc EXCEPT ![self] = "h1"]
                                                   ELSE /\ pc' = [pc EXCEPT ![self] = "h2"]
                                             /\ UNCHANGED << pcall, jobs, nc, 
                                                             hc >>
                                        ELSE /\ nc' = nc + 1
                                             /\ hc' = [hc EXCEPT ![self] = nc']
                                             /\ pcall' = nc'
                                             /\ jobs' = Append(jobs, nc')
                                             /\ pc' = [pc EXCEPT ![self] = "h6"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, finished, 
                            posts, disabled, inside, calls, nk, nx, wake, over, 
                            i, c, k, res, xc, x, wc >>

h6(self) == /\ pc[self] = "h6"
            /\ IF Mut # "no-wait"
                  THEN /\ hc[self] \in finished
                  ELSE /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "h7"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

h7(self) == /\ pc[self] = "h7"
            /\ pc' = [pc EXCEPT ![self] = "h2"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

h8(self) == /\ pc[self] = "h8"
            /\ pc' = [pc EXCEPT ![self] = "h1"]
            /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, 
                            finished, posts, jobs, disabled, inside, calls, nc, 
                            nk, nx, wake, hc, over, i, c, k, res, xc, x, wc >>

helper(self) == h1(self) \/ h2(self) \/ h3(self) \/ h4(self) \/ h5(self)
                   \/ h6(self) \/ h7(self) \/ h8(self)

x1 == /\ pc[90] = "x1"
      /\ jobs # <<>> \/ over
      /\ IF over
            THEN /\ pc' = [pc EXCEPT ![90] = "Done"]
                 /\ UNCHANGED << jobs, xc >>
            ELSE /\ xc' = Head(jobs)
                 /\ jobs' = Tail(jobs)
                 /\ pc' = [pc EXCEPT ![90] = "x2"]
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, finished, 
                      posts, disabled, inside, calls, nc, nk, nx, wake, hc, 
                      over, i, c, k, res, x, wc >>

x2 == /\ pc[90] = "x2"
      /\ IF ~disabled
            THEN /\ inside' = TRUE
                 /\ pc' = [pc EXCEPT ![90] = "x3"]
            ELSE /\ pc' = [pc EXCEPT ![90] = "xa"]
                 /\ UNCHANGED inside
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, calls, nc, nk, nx, wake, hc, over, 
                      i, c, k, res, xc, x, wc >>

x3 == /\ pc[90] = "x3"
      /\ nx' = nx + 1
      /\ x' = nx'
      /\ calls' = calls + 1
      /\ mon' = Mon(mon, (<<"st", 90, now, x', 0, 1, -1, "nt", 0, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x4"]
      /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, inside, nc, nk, wake, hc, over, i, 
                      c, k, res, xc, wc >>

x4 == /\ pc[90] = "x4"
      /\ IF calls = 1 /\ Within = "sus"
            THEN /\ nk' = nk + 1
                 /\ wc' = nk'
                 /\ mon' = Mon(mon, (<<"nsus", 90, now, wc', 0>>))
                 /\ pc' = [pc EXCEPT ![90] = "x5"]
            ELSE /\ IF calls = 1 /\ Within = "can"
                       THEN /\ nk' = nk + 1
                            /\ wc' = nk'
                            /\ mon' = Mon(mon, (<<"ncan", 90, now, wc', 0>>))
                            /\ pc' = [pc EXCEPT ![90] = "x6"]
                       ELSE /\ pc' = [pc EXCEPT ![90] = "x7"]
                            /\ UNCHANGED << mon, nk, wc >>
      /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, inside, calls, nc, nx, wake, hc, 
                      over, i, c, k, res, xc, x >>

x5 == /\ pc[90] = "x5"
      /\ IF resumed > 0
            THEN /\ IF resumed = 1 /\ Mut # "no-cookie"
                       THEN /\ cookie' = cookie + 1
                       ELSE /\ TRUE
                            /\ UNCHANGED cookie
                 /\ resumed' = resumed - 1
            ELSE /\ TRUE
                 /\ UNCHANGED << resumed, cookie >>
      /\ mon' = Mon(mon, (<<"nsusr", 90, now, wc, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x7"]
      /\ UNCHANGED << now, data, closed, pcall, finished, posts, jobs, 
                      disabled, inside, calls, nc, nk, nx, wake, hc, over, i, 
                      c, k, res, xc, x, wc >>

x6 == /\ pc[90] = "x6"
      /\ resumed' = -1
      /\ cookie' = cookie + 1
      /\ disabled' = TRUE
      /\ mon' = Mon(mon, (<<"ncanr", 90, now, wc, 0>>))
      /\ pc' = [pc EXCEPT ![90] = "x7"]
      /\ UNCHANGED << now, data, closed, pcall, finished, posts, jobs, inside, 
                      calls, nc, nk, nx, wake, hc, over, i, c, k, res, xc, x, 
                      wc >>

x7 == /\ pc[90] = "x7"
      /\ wake' = Put(wake, 90, now + Dur)
      /\ pc' = [pc EXCEPT ![90] = "x8"]
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, inside, calls, nc, nk, nx, hc, 
                      over, i, c, k, res, xc, x, wc >>

x8 == /\ pc[90] = "x8"
      /\ ~Sleeping(90)
      /\ IF data > 0 /\ ~closed
            THEN /\ data' = data - 1
                 /\ mon' = Mon(mon, (<<"sd", 90, now, 0, IF data' > 0 THEN 1 ELSE 0>>))
            ELSE /\ TRUE
                 /\ UNCHANGED << mon, data >>
      /\ pc' = [pc EXCEPT ![90] = "xe"]
      /\ UNCHANGED << now, resumed, cookie, closed, pcall, finished, posts, 
                      jobs, disabled, inside, calls, nc, nk, nx, wake, hc, 
                      over, i, c, k, res, xc, x, wc >>

xe == /\ pc[90] = "xe"
      /\ mon' = Mon(mon, (<<"en", 90, now, x>>))
      /\ pc' = [pc EXCEPT ![90] = "x9"]
      /\ UNCHANGED << now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, inside, calls, nc, nk, nx, wake, 
                      hc, over, i, c, k, res, xc, x, wc >>

x9 == /\ pc[90] = "x9"
      /\ inside' = FALSE
      /\ pc' = [pc EXCEPT ![90] = "xa"]
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, finished, 
                      posts, jobs, disabled, calls, nc, nk, nx, wake, hc, over, 
                      i, c, k, res, xc, x, wc >>

xa == /\ pc[90] = "xa"
      /\ pcall' = 0
      /\ pc' = [pc EXCEPT ![90] = "xb"]
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, finished, posts, 
                      jobs, disabled, inside, calls, nc, nk, nx, wake, hc, 
                      over, i, c, k, res, xc, x, wc >>

xb == /\ pc[90] = "xb"
      /\ finished' = (finished \cup {xc})
      /\ pc' = [pc EXCEPT ![90] = "x1"]
      /\ UNCHANGED << mon, now, resumed, cookie, data, closed, pcall, posts, 
                      jobs, disabled, inside, calls, nc, nk, nx, wake, hc, 
                      over, i, c, k, res, xc, x, wc >>

exec == x1 \/ x2 \/ x3 \/ x4 \/ x5 \/ x6 \/ x7 \/ x8 \/ xe \/ x9 \/ xa
           \/ xb

k1 == /\ pc[100] = "k1"
      /\ IF ~over
            THEN /\ /\ \A p \in Users : pc[p] = "Done" \/ Sleeping(p) \/ (pc[p] = "ud" /\ inside)
                    /\ \A p \in Helpers : \/ pc[p] = "h1" /\ posts = {}
                                          \/ pc[p] = "h4" /\ Sleeping(p) /\ ~Readable /\ ~closed
                                          \/ pc[p] \in {"h3", "h6"} /\ hc[p] \notin finished
                    /\ \/ pc[90] = "x1" /\ jobs = <<>>
                       \/ Sleeping(90)
                 /\ IF \E p \in Asleep : p \notin Helpers
                       THEN /\ mon' = Mon(mon, (<<"idle", 0, now>>))
                            /\ now' = MinOf({wake[p] : p \in Asleep})
                            /\ over' = over
                       ELSE /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)]
                            /\ over' = TRUE
                            /\ now' = now
                 /\ pc' = [pc EXCEPT ![100] = "k1"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "Done"]
                 /\ UNCHANGED << mon, now, over >>
      /\ UNCHANGED << resumed, cookie, data, closed, pcall, finished, posts, 
                      jobs, disabled, inside, calls, nc, nk, nx, wake, hc, i, 
                      c, k, res, xc, x, wc >>

clock == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == exec \/ clock
           \/ (\E self \in Users: user(self))
           \/ (\E self \in Helpers: helper(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
=============================================================================
