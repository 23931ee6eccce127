------------------------------- MODULE Cancel -------------------------------
(* cancelable and lightweight_barrier, at the granularity of their atomics,
   under the handler of a signal's connection: Callers run handler calls on the
   threads of a parallel queue (one of them may disconnect from within),
   Leavers disconnect from outside.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Callers, Leavers, Inner, Mut

None == 0
Completed == 1000
Emissions == 1..Cardinality(Callers)
EmitAll == [k \in 1..(2 * Cardinality(Callers)) |->
              IF k % 2 = 1 THEN <<"em", 0, 0, (k + 1) \div 2, 0>> ELSE <<"emr", 0, 0, k \div 2>>]

(* --algorithm Cancel
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "global", 3, -1>>,
                     <<"ds", 0, 0, 0, 0, -1>>, <<"sc", 0, 0, 0, 0, 0, 1>>, <<"scr", 0, 0, 0>> >> \o EmitAll),
    state = [dis |-> FALSE, n |-> 0],
    owner = None,          \* of the barrier: None, Completed or a waiter
    wdone = {},            \* waiters which were completed
    fresh = 0, entry = TRUE, nx = 0, nc = 0, todo = Emissions;
macro ev(e) begin mon := Mon(mon, e) end macro;

procedure complete()
variables prev = None;
begin
p1: prev := owner;
    if owner = None then owner := Completed
    elsif Mut = "complete-unconditional" then owner := Completed end if;
p2: if prev # None /\ prev # Completed then wdone := wdone \cup {prev} end if;
    return;
end procedure;

procedure waitb()
variables cand = None, seen = None;
begin
q1: if owner = Completed then return end if;
q2: fresh := fresh + 1; cand := fresh;
q3: seen := IF owner = None THEN cand ELSE owner;
    if owner = None then owner := cand end if;
q4: if seen # Completed then
        await seen \in wdone
    end if;
q5: return;
end procedure;

procedure disable(within)
variables before = [dis |-> FALSE, n |-> 0];
begin
d1: before := state; state.dis := TRUE;
d2: if within then
        if Mut = "inner-waits" then goto d4 else goto d5 end if
    end if;
d3: if (~before.dis /\ before.n = 0) then
        if Mut # "no-first-complete" then call complete() end if;
d6:     goto d5
    end if;
d4: if Mut # "no-wait" then call waitb() end if;
d5: return;
end procedure;

process caller \in Callers
variables x = 0, m = 0, entered = FALSE, dcall = 0;
begin
e2: (* the compare/exchange loop succeeds or sees it is disabled *)
    m := MinOf(todo); todo := todo \ {m};
    if Mut = "enter-late" then entered := ~state.dis
    elsif ~state.dis then state.n := state.n + 1; entered := TRUE end if;
e3: if entered then
        if Mut = "enter-late" then state.n := state.n + 1 end if;
        nx := nx + 1; x := nx;
        ev(<<"st", self, 0, x, 0, 1, -1, "sg", 0, m>>);
        if self \in Inner then
e4:         nc := nc + 1; dcall := nc; ev(<<"dc", self, 0, dcall, 0>>);
            call disable(TRUE);
e5:         ev(<<"dcr", self, 0, dcall, -1>>);
        end if;
e6:     ev(<<"en", self, 0, x>>);
e7:     state.n := state.n - 1;
        if state.n = 0 /\ state.dis then
            if Mut # "no-last-complete" then call complete() end if
        end if;
    end if;
end process;

process leaver \in Leavers
variables lcall = 0;
begin
l1: nc := nc + 1; lcall := nc; ev(<<"dc", self, 0, lcall, 0>>);
    call disable(FALSE);
l2: ev(<<"dcr", self, 0, lcall, -1>>);
end process;

process silence = 100
begin
k1: await /\ \A p \in Callers \cup Leavers : pc[p] = "Done";
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
CONSTANT defaultInitValue
VARIABLES pc, mon, state, owner, wdone, fresh, entry, nx, nc, todo, stack, 
          prev, cand, seen, within, before, x, m, entered, dcall, lcall

vars == << pc, mon, state, owner, wdone, fresh, entry, nx, nc, todo, stack, 
           prev, cand, seen, within, before, x, m, entered, dcall, lcall >>

ProcSet == (Callers) \cup (Leavers) \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "global", 3, -1>>,
                            <<"ds", 0, 0, 0, 0, -1>>, <<"sc", 0, 0, 0, 0, 0, 1>>, <<"scr", 0, 0, 0>> >> \o EmitAll)
        /\ state = [dis |-> FALSE, n |-> 0]
        /\ owner = None
        /\ wdone = {}
        /\ fresh = 0
        /\ entry = TRUE
        /\ nx = 0
        /\ nc = 0
        /\ todo = Emissions
        (* Procedure complete *)
        /\ prev = [ self \in ProcSet |-> None]
        (* Procedure waitb *)
        /\ cand = [ self \in ProcSet |-> None]
        /\ seen = [ self \in ProcSet |-> None]
        (* Procedure disable *)
        /\ within = [ self \in ProcSet |-> defaultInitValue]
        /\ before = [ self \in ProcSet |-> [dis |-> FALSE, n |-> 0]]
        (* Process caller *)
        /\ x = [self \in Callers |-> 0]
        /\ m = [self \in Callers |-> 0]
        /\ entered = [self \in Callers |-> FALSE]
        /\ dcall = [self \in Callers |-> 0]
        (* Process leaver *)
        /\ lcall = [self \in Leavers |-> 0]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Callers -> "e2"
                                        [] self \in Leavers -> "l1"
                                        [] self = 100 -> "k1"]

p1(self) == /\ pc[self] = "p1"
            /\ prev' = [prev EXCEPT ![self] = owner]
            /\ IF owner = None
                  THEN /\ owner' = Completed
                  ELSE /\ IF Mut = "complete-unconditional"
                             THEN /\ owner' = Completed
                             ELSE /\ TRUE
                                  /\ owner' = owner
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << mon, state, wdone, fresh, entry, nx, nc, todo, 
                            stack, cand, seen, within, before, x, m, entered, 
                            dcall, lcall >>

p2(self) == /\ pc[self] = "p2"
            /\ IF prev[self] # None /\ prev[self] # Completed
                  THEN /\ wdone' = (wdone \cup {prev[self]})
                  ELSE /\ TRUE
                       /\ wdone' = wdone
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ prev' = [prev EXCEPT ![self] = Head(stack[self]).prev]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << mon, state, owner, fresh, entry, nx, nc, todo, 
                            cand, seen, within, before, x, m, entered, dcall, 
                            lcall >>

complete(self) == p1(self) \/ p2(self)

q1(self) == /\ pc[self] = "q1"
            /\ IF owner = Completed
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ cand' = [cand EXCEPT ![self] = Head(stack[self]).cand]
                       /\ seen' = [seen EXCEPT ![self] = Head(stack[self]).seen]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "q2"]
                       /\ UNCHANGED << stack, cand, seen >>
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, prev, within, before, x, m, entered, dcall, 
                            lcall >>

q2(self) == /\ pc[self] = "q2"
            /\ fresh' = fresh + 1
            /\ cand' = [cand EXCEPT ![self] = fresh']
            /\ pc' = [pc EXCEPT ![self] = "q3"]
            /\ UNCHANGED << mon, state, owner, wdone, entry, nx, nc, todo, 
                            stack, prev, seen, within, before, x, m, entered, 
                            dcall, lcall >>

q3(self) == /\ pc[self] = "q3"
            /\ seen' = [seen EXCEPT ![self] = IF owner = None THEN cand[self] ELSE owner]
            /\ IF owner = None
                  THEN /\ owner' = cand[self]
                  ELSE /\ TRUE
                       /\ owner' = owner
            /\ pc' = [pc EXCEPT ![self] = "q4"]
            /\ UNCHANGED << mon, state, wdone, fresh, entry, nx, nc, todo, 
                            stack, prev, cand, within, before, x, m, entered, 
                            dcall, lcall >>

q4(self) == /\ pc[self] = "q4"
            /\ IF seen[self] # Completed
                  THEN /\ seen[self] \in wdone
                  ELSE /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "q5"]
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, stack, prev, cand, seen, within, before, x, 
                            m, entered, dcall, lcall >>

q5(self) == /\ pc[self] = "q5"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ cand' = [cand EXCEPT ![self] = Head(stack[self]).cand]
            /\ seen' = [seen EXCEPT ![self] = Head(stack[self]).seen]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, prev, within, before, x, m, entered, dcall, 
                            lcall >>

waitb(self) == q1(self) \/ q2(self) \/ q3(self) \/ q4(self) \/ q5(self)

d1(self) == /\ pc[self] = "d1"
            /\ before' = [before EXCEPT ![self] = state]
            /\ state' = [state EXCEPT !.dis = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << mon, owner, wdone, fresh, entry, nx, nc, todo, 
                            stack, prev, cand, seen, within, x, m, entered, 
                            dcall, lcall >>

d2(self) == /\ pc[self] = "d2"
            /\ IF within[self]
                  THEN /\ IF Mut = "inner-waits"
                             THEN /\ pc' = [pc EXCEPT ![self] = "d4"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "d5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d3"]
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, stack, prev, cand, seen, within, before, x, 
                            m, entered, dcall, lcall >>

d3(self) == /\ pc[self] = "d3"
            /\ IF (~before[self].dis /\ before[self].n = 0)
                  THEN /\ IF Mut # "no-first-complete"
                             THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "complete",
                                                                           pc        |->  "d6",
                                                                           prev      |->  prev[self] ] >>
                                                                       \o stack[self]]
                                  /\ prev' = [prev EXCEPT ![self] = None]
                                  /\ pc' = [pc EXCEPT ![self] = "p1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "d6"]
                                  /\ UNCHANGED << stack, prev >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d4"]
                       /\ UNCHANGED << stack, prev >>
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, cand, seen, within, before, x, m, entered, 
                            dcall, lcall >>

d6(self) == /\ pc[self] = "d6"
            /\ pc' = [pc EXCEPT ![self] = "d5"]
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, stack, prev, cand, seen, within, before, x, 
                            m, entered, dcall, lcall >>

d4(self) == /\ pc[self] = "d4"
            /\ IF Mut # "no-wait"
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "waitb",
                                                                pc        |->  "d5",
                                                                cand      |->  cand[self],
                                                                seen      |->  seen[self] ] >>
                                                            \o stack[self]]
                       /\ cand' = [cand EXCEPT ![self] = None]
                       /\ seen' = [seen EXCEPT ![self] = None]
                       /\ pc' = [pc EXCEPT ![self] = "q1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d5"]
                       /\ UNCHANGED << stack, cand, seen >>
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, prev, within, before, x, m, entered, dcall, 
                            lcall >>

d5(self) == /\ pc[self] = "d5"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ before' = [before EXCEPT ![self] = Head(stack[self]).before]
            /\ within' = [within EXCEPT ![self] = Head(stack[self]).within]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << mon, state, owner, wdone, fresh, entry, nx, nc, 
                            todo, prev, cand, seen, x, m, entered, dcall, 
                            lcall >>

disable(self) == d1(self) \/ d2(self) \/ d3(self) \/ d6(self) \/ d4(self)
                    \/ d5(self)

e2(self) == /\ pc[self] = "e2"
            /\ m' = [m EXCEPT ![self] = MinOf(todo)]
            /\ todo' = todo \ {m'[self]}
            /\ IF Mut = "enter-late"
                  THEN /\ entered' = [entered EXCEPT ![self] = ~state.dis]
                       /\ state' = state
                  ELSE /\ IF ~state.dis
                             THEN /\ state' = [state EXCEPT !.n = state.n + 1]
                                  /\ entered' = [entered EXCEPT ![self] = TRUE]
                             ELSE /\ TRUE
                                  /\ UNCHANGED << state, entered >>
            /\ pc' = [pc EXCEPT ![self] = "e3"]
            /\ UNCHANGED << mon, owner, wdone, fresh, entry, nx, nc, stack, 
                            prev, cand, seen, within, before, x, dcall, lcall >>

e3(self) == /\ pc[self] = "e3"
            /\ IF entered[self]
                  THEN /\ IF Mut = "enter-late"
                             THEN /\ state' = [state EXCEPT !.n = state.n + 1]
                             ELSE /\ TRUE
                                  /\ state' = state
                       /\ nx' = nx + 1
                       /\ x' = [x EXCEPT ![self] = nx']
                       /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], 0, 1, -1, "sg", 0, m[self]>>))
                       /\ IF self \in Inner
                             THEN /\ pc' = [pc EXCEPT ![self] = "e4"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "e6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, state, nx, x >>
            /\ UNCHANGED << owner, wdone, fresh, entry, nc, todo, stack, prev, 
                            cand, seen, within, before, m, entered, dcall, 
                            lcall >>

e6(self) == /\ pc[self] = "e6"
            /\ mon' = Mon(mon, (<<"en", self, 0, x[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "e7"]
            /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, nc, todo, 
                            stack, prev, cand, seen, within, before, x, m, 
                            entered, dcall, lcall >>

e7(self) == /\ pc[self] = "e7"
            /\ state' = [state EXCEPT !.n = state.n - 1]
            /\ IF state'.n = 0 /\ state'.dis
                  THEN /\ IF Mut # "no-last-complete"
                             THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "complete",
                                                                           pc        |->  "Done",
                                                                           prev      |->  prev[self] ] >>
                                                                       \o stack[self]]
                                  /\ prev' = [prev EXCEPT ![self] = None]
                                  /\ pc' = [pc EXCEPT ![self] = "p1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                                  /\ UNCHANGED << stack, prev >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << stack, prev >>
            /\ UNCHANGED << mon, owner, wdone, fresh, entry, nx, nc, todo, 
                            cand, seen, within, before, x, m, entered, dcall, 
                            lcall >>

e4(self) == /\ pc[self] = "e4"
            /\ nc' = nc + 1
            /\ dcall' = [dcall EXCEPT ![self] = nc']
            /\ mon' = Mon(mon, (<<"dc", self, 0, dcall'[self], 0>>))
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "disable",
                                                        pc        |->  "e5",
                                                        before    |->  before[self],
                                                        within    |->  within[self] ] >>
                                                    \o stack[self]]
               /\ within' = [within EXCEPT ![self] = TRUE]
            /\ before' = [before EXCEPT ![self] = [dis |-> FALSE, n |-> 0]]
            /\ pc' = [pc EXCEPT ![self] = "d1"]
            /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, todo, prev, 
                            cand, seen, x, m, entered, lcall >>

e5(self) == /\ pc[self] = "e5"
            /\ mon' = Mon(mon, (<<"dcr", self, 0, dcall[self], -1>>))
            /\ pc' = [pc EXCEPT ![self] = "e6"]
            /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, nc, todo, 
                            stack, prev, cand, seen, within, before, x, m, 
                            entered, dcall, lcall >>

caller(self) == e2(self) \/ e3(self) \/ e6(self) \/ e7(self) \/ e4(self)
                   \/ e5(self)

l1(self) == /\ pc[self] = "l1"
            /\ nc' = nc + 1
            /\ lcall' = [lcall EXCEPT ![self] = nc']
            /\ mon' = Mon(mon, (<<"dc", self, 0, lcall'[self], 0>>))
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "disable",
                                                        pc        |->  "l2",
                                                        before    |->  before[self],
                                                        within    |->  within[self] ] >>
                                                    \o stack[self]]
               /\ within' = [within EXCEPT ![self] = FALSE]
            /\ before' = [before EXCEPT ![self] = [dis |-> FALSE, n |-> 0]]
            /\ pc' = [pc EXCEPT ![self] = "d1"]
            /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, todo, prev, 
                            cand, seen, x, m, entered, dcall >>

l2(self) == /\ pc[self] = "l2"
            /\ mon' = Mon(mon, (<<"dcr", self, 0, lcall[self], -1>>))
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, nc, todo, 
                            stack, prev, cand, seen, within, before, x, m, 
                            entered, dcall, lcall >>

leaver(self) == l1(self) \/ l2(self)

k1 == /\ pc[100] = "k1"
      /\ /\ \A p \in Callers \cup Leavers : pc[p] = "Done"
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << state, owner, wdone, fresh, entry, nx, nc, todo, stack, 
                      prev, cand, seen, within, before, x, m, entered, dcall, 
                      lcall >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == silence
           \/ (\E self \in ProcSet:  \/ complete(self) \/ waitb(self)
                                     \/ disable(self))
           \/ (\E self \in Callers: caller(self))
           \/ (\E self \in Leavers: leaver(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
(* the barrier never forgets that it was completed, calls are counted exactly *)
Sane == /\ state.n >= 0
        /\ owner \in {None, Completed} \cup 1..fresh
Perms == Permutations(Callers) \cup Permutations(Leavers)
=============================================================================
