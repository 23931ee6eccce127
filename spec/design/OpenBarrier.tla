---------------------------- MODULE OpenBarrier ----------------------------
(* lightweight_barrier under a barrier_operation, at the granularity of its
   atomics: several clients wait (without end, with a timeout, with none) and
   ask while others run the operation.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Completers, Mut

Clients == DOMAIN Script
Script1 == << <<"wait">>, <<"timed", "ask">> >>
Script2 == << <<"timed">>, <<"ask", "poll">> >>
Script3 == << <<"wait">>, <<"wait">>, <<"ask">> >>
To(x) == CASE x = "wait" -> -1 [] x = "timed" -> 5 [] OTHER -> 0
None == 0
Completed == 1000

(* --algorithm OpenBarrier
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 1>>, <<"bn", 0, 0, 0>> >>),
    owner = None, done = {}, fresh = 0, nc = 0, now = 0;
macro ev(e) begin mon := Mon(mon, e) end macro;

process client \in Clients
variables i = 1, c = 0, to = 0, seen = None, mine = None, start = 0, res = 0;
begin
c1: while i <= Len(Script[self]) do
        nc := nc + 1; c := nc; to := To(Script[self][i]);
        if Script[self][i] = "ask" then
            ev(<<"bp", self, now, c, 0>>);
a1:         seen := owner;
a2:         res := IF seen = Completed THEN 1
                   ELSE IF seen # None /\ (seen \in done \/ Mut = "asked-is-open") THEN 1 ELSE 0;
a3:         ev(<<"bpr", self, now, c, res>>);
        else
            ev(<<"bw", self, now, c, 0, to>>);
w1:         seen := owner;
            if seen = Completed then res := 1; goto w9 end if;
w2:         fresh := fresh + 1; mine := fresh;
w3:         seen := IF owner = None \/ (Mut = "replace" /\ owner # Completed) THEN mine ELSE owner;
            if owner = None \/ (Mut = "replace" /\ owner # Completed) then owner := mine end if;
            if seen = Completed then
                if Mut = "no-second-look" then mon := Fatal(mon, "crash") end if;
                res := 1; goto w9
            end if;
w4:         start := now;
            (* woken, or the time is over *)
w5:         either
                await seen \in done; res := 1
            or
                await to >= 0 /\ now >= start + to;
                res := IF seen \in done THEN 1 ELSE IF Mut = "late-true" THEN 1 ELSE 0
            end either;
w9:         ev(<<"bwr", self, now, c, res>>);
        end if;
c9:     i := i + 1;
    end while;
end process;

process completer \in Completers
variables prev = None;
begin
p1: ev(<<"bc", self, now, 0, -1>>);
p2: prev := owner;
    if owner = None then
        either owner := Completed or await Mut = "weak" end either
    end if;
p3: if prev # None /\ prev # Completed then
        if Mut # "wake-none" then done := done \cup {prev} end if
    end if;
p4: ev(<<"bcr", self, now, 0>>);
end process;

process clock = 90
begin
t1: now := 5;
end process;

process silence = 100
begin
k1: await \A p \in Clients \cup Completers : pc[p] = "Done";
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, owner, done, fresh, nc, now, i, c, to, seen, mine, start, 
          res, prev

vars == << pc, mon, owner, done, fresh, nc, now, i, c, to, seen, mine, start, 
           res, prev >>

ProcSet == (Clients) \cup (Completers) \cup {90} \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 1>>, <<"bn", 0, 0, 0>> >>)
        /\ owner = None
        /\ done = {}
        /\ fresh = 0
        /\ nc = 0
        /\ now = 0
        (* Process client *)
        /\ i = [self \in Clients |-> 1]
        /\ c = [self \in Clients |-> 0]
        /\ to = [self \in Clients |-> 0]
        /\ seen = [self \in Clients |-> None]
        /\ mine = [self \in Clients |-> None]
        /\ start = [self \in Clients |-> 0]
        /\ res = [self \in Clients |-> 0]
        (* Process completer *)
        /\ prev = [self \in Completers |-> None]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "c1"
                                        [] self \in Completers -> "p1"
                                        [] self = 90 -> "t1"
                                        [] self = 100 -> "k1"]

c1(self) == /\ pc[self] = "c1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ nc' = nc + 1
                       /\ c' = [c EXCEPT ![self] = nc']
                       /\ to' = [to EXCEPT ![self] = To(Script[self][i[self]])]
                       /\ IF Script[self][i[self]] = "ask"
                             THEN /\ mon' = Mon(mon, (<<"bp", self, now, c'[self], 0>>))
                                  /\ pc' = [pc EXCEPT ![self] = "a1"]
                             ELSE /\ mon' = Mon(mon, (<<"bw", self, now, c'[self], 0, to'[self]>>))
                                  /\ pc' = [pc EXCEPT ![self] = "w1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, nc, c, to >>
            /\ UNCHANGED << owner, done, fresh, now, i, seen, mine, start, res, 
                            prev >>

c9(self) == /\ pc[self] = "c9"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, c, to, seen, 
                            mine, start, res, prev >>

a1(self) == /\ pc[self] = "a1"
            /\ seen' = [seen EXCEPT ![self] = owner]
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, i, c, to, mine, 
                            start, res, prev >>

a2(self) == /\ pc[self] = "a2"
            /\ res' = [res EXCEPT ![self] = IF seen[self] = Completed THEN 1
                                            ELSE IF seen[self] # None /\ (seen[self] \in done \/ Mut = "asked-is-open") THEN 1 ELSE 0]
            /\ pc' = [pc EXCEPT ![self] = "a3"]
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, i, c, to, seen, 
                            mine, start, prev >>

a3(self) == /\ pc[self] = "a3"
            /\ mon' = Mon(mon, (<<"bpr", self, now, c[self], res[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << owner, done, fresh, nc, now, i, c, to, seen, mine, 
                            start, res, prev >>

w1(self) == /\ pc[self] = "w1"
            /\ seen' = [seen EXCEPT ![self] = owner]
            /\ IF seen'[self] = Completed
                  THEN /\ res' = [res EXCEPT ![self] = 1]
                       /\ pc' = [pc EXCEPT ![self] = "w9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w2"]
                       /\ res' = res
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, i, c, to, mine, 
                            start, prev >>

w2(self) == /\ pc[self] = "w2"
            /\ fresh' = fresh + 1
            /\ mine' = [mine EXCEPT ![self] = fresh']
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << mon, owner, done, nc, now, i, c, to, seen, start, 
                            res, prev >>

w3(self) == /\ pc[self] = "w3"
            /\ seen' = [seen EXCEPT ![self] = IF owner = None \/ (Mut = "replace" /\ owner # Completed) THEN mine[self] ELSE owner]
            /\ IF owner = None \/ (Mut = "replace" /\ owner # Completed)
                  THEN /\ owner' = mine[self]
                  ELSE /\ TRUE
                       /\ owner' = owner
            /\ IF seen'[self] = Completed
                  THEN /\ IF Mut = "no-second-look"
                             THEN /\ mon' = Fatal(mon, "crash")
                             ELSE /\ TRUE
                                  /\ mon' = mon
                       /\ res' = [res EXCEPT ![self] = 1]
                       /\ pc' = [pc EXCEPT ![self] = "w9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w4"]
                       /\ UNCHANGED << mon, res >>
            /\ UNCHANGED << done, fresh, nc, now, i, c, to, mine, start, prev >>

w4(self) == /\ pc[self] = "w4"
            /\ start' = [start EXCEPT ![self] = now]
            /\ pc' = [pc EXCEPT ![self] = "w5"]
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, i, c, to, seen, 
                            mine, res, prev >>

w5(self) == /\ pc[self] = "w5"
            /\ \/ /\ seen[self] \in done
                  /\ res' = [res EXCEPT ![self] = 1]
               \/ /\ to[self] >= 0 /\ now >= start[self] + to[self]
                  /\ res' = [res EXCEPT ![self] = IF seen[self] \in done THEN 1 ELSE IF Mut = "late-true" THEN 1 ELSE 0]
            /\ pc' = [pc EXCEPT ![self] = "w9"]
            /\ UNCHANGED << mon, owner, done, fresh, nc, now, i, c, to, seen, 
                            mine, start, prev >>

w9(self) == /\ pc[self] = "w9"
            /\ mon' = Mon(mon, (<<"bwr", self, now, c[self], res[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << owner, done, fresh, nc, now, i, c, to, seen, mine, 
                            start, res, prev >>

client(self) == c1(self) \/ c9(self) \/ a1(self) \/ a2(self) \/ a3(self)
                   \/ w1(self) \/ w2(self) \/ w3(self) \/ w4(self)
                   \/ w5(self) \/ w9(self)

p1(self) == /\ pc[self] = "p1"
            /\ mon' = Mon(mon, (<<"bc", self, now, 0, -1>>))
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << owner, done, fresh, nc, now, i, c, to, seen, mine, 
                            start, res, prev >>

p2(self) == /\ pc[self] = "p2"
            /\ prev' = [prev EXCEPT ![self] = owner]
            /\ IF owner = None
                  THEN /\ \/ /\ owner' = Completed
                          \/ /\ Mut = "weak"
                             /\ owner' = owner
                  ELSE /\ TRUE
                       /\ owner' = owner
            /\ pc' = [pc EXCEPT ![self] = "p3"]
            /\ UNCHANGED << mon, done, fresh, nc, now, i, c, to, seen, mine, 
                            start, res >>

p3(self) == /\ pc[self] = "p3"
            /\ IF prev[self] # None /\ prev[self] # Completed
                  THEN /\ IF Mut # "wake-none"
                             THEN /\ done' = (done \cup {prev[self]})
                             ELSE /\ TRUE
                                  /\ done' = done
                  ELSE /\ TRUE
                       /\ done' = done
            /\ pc' = [pc EXCEPT ![self] = "p4"]
            /\ UNCHANGED << mon, owner, fresh, nc, now, i, c, to, seen, mine, 
                            start, res, prev >>

p4(self) == /\ pc[self] = "p4"
            /\ mon' = Mon(mon, (<<"bcr", self, now, 0>>))
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << owner, done, fresh, nc, now, i, c, to, seen, mine, 
                            start, res, prev >>

completer(self) == p1(self) \/ p2(self) \/ p3(self) \/ p4(self)

t1 == /\ pc[90] = "t1"
      /\ now' = 5
      /\ pc' = [pc EXCEPT ![90] = "Done"]
      /\ UNCHANGED << mon, owner, done, fresh, nc, i, c, to, seen, mine, start, 
                      res, prev >>

clock == t1

k1 == /\ pc[100] = "k1"
      /\ \A p \in Clients \cup Completers : pc[p] = "Done"
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, now)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << owner, done, fresh, nc, now, i, c, to, seen, mine, start, 
                      res, prev >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == clock \/ silence
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in Completers: completer(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
=============================================================================
