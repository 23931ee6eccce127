----------------------------- MODULE ThreadPool -----------------------------
(* naive_threadpool: one list per priority, a semaphore which counts what is
   queued, threads which are created on demand, idle and expire.

   Clients submit the operations of their script. Operations in Waits block
   within the library until those of their group are through, which lends
   their place to another thread meanwhile.                                  *)
EXTENDS Monitor
CONSTANTS Script,    \* client -> operations
          Prio,      \* operation -> 0..4
          Grouped,   \* operations which are part of the group
          Waits,     \* operations which wait for the group
          Long,      \* operations which run until nothing else happens
          MaxT,      \* threads of the pool, even
          Slots,     \* identities of threads
          Expiries,  \* how often a thread gives up waiting
          Mut

Clients == DOMAIN Script
List(o) == Class(Prio[o])

(* --algorithm ThreadPool
variables
    mon = MonInit(<< <<"cf", 0, 0, MaxT \div 2, 0>> >> \o
                  [i \in 1..5 |-> <<"dq", 0, 0, i - 1, "global", i - 1, -1>>]),
    ctr = 0, lists = [i \in 0..3 |-> <<>>],
    limit = MaxT, active = 0, idle = 0, born = {},
    left = Expiries, nx = 0, over = FALSE, done = {}, passed = FALSE, long = {};
define
    Free == Slots \ born
    Rest == /\ \A p \in Clients : pc[p] = "Done"
            /\ \A p \in Slots : \/ pc[p] = "t0" /\ p \notin born
                                \/ pc[p] = "t4" /\ ctr = 0
                                \/ pc[p] = "t9b" /\ p \in long /\ ~passed
end define;
macro ev(e) begin mon := Mon(mon, e) end macro;

procedure schedule()
variables a = 0;
begin
s1: a := active;
s2: if idle > 0 /\ Mut # "always-create" then return end if;
s3: if a < limit then
s4:     if active = a then
            active := active + 1;
            mon := IF Free = {} THEN Fatal(mon, "too many threads") ELSE mon;
            if Free # {} then
                with t \in Free do born := born \cup {t} end with;
            end if;
            return;
        else
            a := active; goto s3;
        end if;
    else return;
    end if;
end procedure;

process client \in Clients
variables todo = Script[self], o = 0;
begin
c1: while todo # <<>> do
        o := Head(todo); todo := Tail(todo);
        ev(<<"sub", self, 0, o, Prio[o], IF o \in Grouped THEN 0 ELSE -1>>);
c2:     lists[List(o)] := Append(lists[List(o)], o);
c3:     ctr := ctr + 1;
        if ~(Mut = "no-schedule" /\ active > 0) then call schedule() end if;
c4:     ev(<<"subr", self, 0, o>>);
    end while;
end process;

process worker \in Slots
variables op = 0, l = 0, x = 0, need = {};
begin
t0: while TRUE do
        await self \in born \/ over;
        if over then goto Done end if;
t1:     while TRUE do
            if ctr > 0 then ctr := ctr - 1; goto t6
            else
t3:             idle := idle + 1;
t4:             either await ctr > 0; ctr := ctr - 1;
                or     await left > 0; left := left - 1; goto x1;
                or     await over; goto Done;
                end either;
t5:             idle := idle - 1; goto t6;
x1:             idle := idle - 1;
x2:             active := active - 1;
x3:             if ctr > 0 /\ Mut # "no-recovery" then
                    ctr := ctr - 1;
x4:                 active := active + 1;
                else
                    born := born \ {self}; goto t0;
                end if;
            end if;
t6:         if ctr > 0 /\ Mut # "no-chain" then call schedule() end if;
t7:         l := IF Mut = "low-first" THEN 3 ELSE 0;
t8:         if lists[l] # <<>> then
                op := Head(lists[l]); lists[l] := Tail(lists[l]);
            else
                l := (IF Mut = "low-first" THEN l + 3 ELSE l + 1) % 4; goto t8;
            end if;
t9:         nx := nx + 1; x := nx;
            ev(<<"st", self, 0, x, Prio[op], 1, -1, "op", op, 0>>);
            if op \in Long then long := long \cup {self} end if;
            if op \in Waits then
b1:             need := Grouped \ done;
                ev(<<"gw", self, 0, x, 0, -1>>);
b2:             if Mut # "no-lend" then limit := limit + 1; call schedule() end if;
b3:             await need \subseteq done;
                if Mut # "no-lend" then limit := limit - 1 end if;
b4:             ev(<<"gwr", self, 0, x, 1>>);
            end if;
t9b:        await op \notin Long \/ passed;
t10:        mon := Mon2(mon, <<"en", self, 0, x>>, <<"de", self, 0, op>>);
            done := done \cup {op};
        end while;
    end while;
end process;

process silence = 100
begin
k1: await Rest;
    if \E p \in Slots : pc[p] = "t9b" then
        mon := [mon EXCEPT !.bad = @ \cup Errs(mon.s, <<"idle", 0, 0>>)];
        passed := TRUE;
k2:     await Rest;
    end if;
k3: over := TRUE;
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, ctr, lists, limit, active, idle, born, left, nx, over, 
          done, passed, long, stack

(* define statement *)
Free == Slots \ born
Rest == /\ \A p \in Clients : pc[p] = "Done"
        /\ \A p \in Slots : \/ pc[p] = "t0" /\ p \notin born
                            \/ pc[p] = "t4" /\ ctr = 0
                            \/ pc[p] = "t9b" /\ p \in long /\ ~passed

VARIABLES a, todo, o, op, l, x, need

vars == << pc, mon, ctr, lists, limit, active, idle, born, left, nx, over, 
           done, passed, long, stack, a, todo, o, op, l, x, need >>

ProcSet == (Clients) \cup (Slots) \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, MaxT \div 2, 0>> >> \o
                         [i \in 1..5 |-> <<"dq", 0, 0, i - 1, "global", i - 1, -1>>])
        /\ ctr = 0
        /\ lists = [i \in 0..3 |-> <<>>]
        /\ limit = MaxT
        /\ active = 0
        /\ idle = 0
        /\ born = {}
        /\ left = Expiries
        /\ nx = 0
        /\ over = FALSE
        /\ done = {}
        /\ passed = FALSE
        /\ long = {}
        (* Procedure schedule *)
        /\ a = [ self \in ProcSet |-> 0]
        (* Process client *)
        /\ todo = [self \in Clients |-> Script[self]]
        /\ o = [self \in Clients |-> 0]
        (* Process worker *)
        /\ op = [self \in Slots |-> 0]
        /\ l = [self \in Slots |-> 0]
        /\ x = [self \in Slots |-> 0]
        /\ need = [self \in Slots |-> {}]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "c1"
                                        [] self \in Slots -> "t0"
                                        [] self = 100 -> "k1"]

s1(self) == /\ pc[self] = "s1"
            /\ a' = [a EXCEPT ![self] = active]
            /\ pc' = [pc EXCEPT ![self] = "s2"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, stack, todo, o, op, 
                            l, x, need >>

s2(self) == /\ pc[self] = "s2"
            /\ IF idle > 0 /\ Mut # "always-create"
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ a' = [a EXCEPT ![self] = Head(stack[self]).a]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "s3"]
                       /\ UNCHANGED << stack, a >>
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, todo, o, op, l, x, 
                            need >>

s3(self) == /\ pc[self] = "s3"
            /\ IF a[self] < limit
                  THEN /\ pc' = [pc EXCEPT ![self] = "s4"]
                       /\ UNCHANGED << stack, a >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ a' = [a EXCEPT ![self] = Head(stack[self]).a]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, todo, o, op, l, x, 
                            need >>

s4(self) == /\ pc[self] = "s4"
            /\ IF active = a[self]
                  THEN /\ active' = active + 1
                       /\ mon' = (IF Free = {} THEN Fatal(mon, "too many threads") ELSE mon)
                       /\ IF Free # {}
                             THEN /\ \E t \in Free:
                                       born' = (born \cup {t})
                             ELSE /\ TRUE
                                  /\ born' = born
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ a' = [a EXCEPT ![self] = Head(stack[self]).a]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ a' = [a EXCEPT ![self] = active]
                       /\ pc' = [pc EXCEPT ![self] = "s3"]
                       /\ UNCHANGED << mon, active, born, stack >>
            /\ UNCHANGED << ctr, lists, limit, idle, left, nx, over, done, 
                            passed, long, todo, o, op, l, x, need >>

schedule(self) == s1(self) \/ s2(self) \/ s3(self) \/ s4(self)

c1(self) == /\ pc[self] = "c1"
            /\ IF todo[self] # <<>>
                  THEN /\ o' = [o EXCEPT ![self] = Head(todo[self])]
                       /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
                       /\ mon' = Mon(mon, (<<"sub", self, 0, o'[self], Prio[o'[self]], IF o'[self] \in Grouped THEN 0 ELSE -1>>))
                       /\ pc' = [pc EXCEPT ![self] = "c2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, todo, o >>
            /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, op, l, x, need >>

c2(self) == /\ pc[self] = "c2"
            /\ lists' = [lists EXCEPT ![List(o[self])] = Append(lists[List(o[self])], o[self])]
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << mon, ctr, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

c3(self) == /\ pc[self] = "c3"
            /\ ctr' = ctr + 1
            /\ IF ~(Mut = "no-schedule" /\ active > 0)
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "schedule",
                                                                pc        |->  "c4",
                                                                a         |->  a[self] ] >>
                                                            \o stack[self]]
                       /\ a' = [a EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "s1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c4"]
                       /\ UNCHANGED << stack, a >>
            /\ UNCHANGED << mon, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, todo, o, op, l, x, need >>

c4(self) == /\ pc[self] = "c4"
            /\ mon' = Mon(mon, (<<"subr", self, 0, o[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

client(self) == c1(self) \/ c2(self) \/ c3(self) \/ c4(self)

t0(self) == /\ pc[self] = "t0"
            /\ self \in born \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t1"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, stack, a, todo, o, 
                            op, l, x, need >>

t1(self) == /\ pc[self] = "t1"
            /\ IF ctr > 0
                  THEN /\ ctr' = ctr - 1
                       /\ pc' = [pc EXCEPT ![self] = "t6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t3"]
                       /\ ctr' = ctr
            /\ UNCHANGED << mon, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

t6(self) == /\ pc[self] = "t6"
            /\ IF ctr > 0 /\ Mut # "no-chain"
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "schedule",
                                                                pc        |->  "t7",
                                                                a         |->  a[self] ] >>
                                                            \o stack[self]]
                       /\ a' = [a EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "s1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t7"]
                       /\ UNCHANGED << stack, a >>
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, todo, o, op, l, x, 
                            need >>

t7(self) == /\ pc[self] = "t7"
            /\ l' = [l EXCEPT ![self] = IF Mut = "low-first" THEN 3 ELSE 0]
            /\ pc' = [pc EXCEPT ![self] = "t8"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                            nx, over, done, passed, long, stack, a, todo, o, 
                            op, x, need >>

t8(self) == /\ pc[self] = "t8"
            /\ IF lists[l[self]] # <<>>
                  THEN /\ op' = [op EXCEPT ![self] = Head(lists[l[self]])]
                       /\ lists' = [lists EXCEPT ![l[self]] = Tail(lists[l[self]])]
                       /\ pc' = [pc EXCEPT ![self] = "t9"]
                       /\ l' = l
                  ELSE /\ l' = [l EXCEPT ![self] = (IF Mut = "low-first" THEN l[self] + 3 ELSE l[self] + 1) % 4]
                       /\ pc' = [pc EXCEPT ![self] = "t8"]
                       /\ UNCHANGED << lists, op >>
            /\ UNCHANGED << mon, ctr, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, x, 
                            need >>

t9(self) == /\ pc[self] = "t9"
            /\ nx' = nx + 1
            /\ x' = [x EXCEPT ![self] = nx']
            /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], Prio[op[self]], 1, -1, "op", op[self], 0>>))
            /\ IF op[self] \in Long
                  THEN /\ long' = (long \cup {self})
                  ELSE /\ TRUE
                       /\ long' = long
            /\ IF op[self] \in Waits
                  THEN /\ pc' = [pc EXCEPT ![self] = "b1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "t9b"]
            /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, over, 
                            done, passed, stack, a, todo, o, op, l, need >>

b1(self) == /\ pc[self] = "b1"
            /\ need' = [need EXCEPT ![self] = Grouped \ done]
            /\ mon' = Mon(mon, (<<"gw", self, 0, x[self], 0, -1>>))
            /\ pc' = [pc EXCEPT ![self] = "b2"]
            /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x >>

b2(self) == /\ pc[self] = "b2"
            /\ IF Mut # "no-lend"
                  THEN /\ limit' = limit + 1
                       /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "schedule",
                                                                pc        |->  "b3",
                                                                a         |->  a[self] ] >>
                                                            \o stack[self]]
                       /\ a' = [a EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "s1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b3"]
                       /\ UNCHANGED << limit, stack, a >>
            /\ UNCHANGED << mon, ctr, lists, active, idle, born, left, nx, 
                            over, done, passed, long, todo, o, op, l, x, need >>

b3(self) == /\ pc[self] = "b3"
            /\ need[self] \subseteq done
            /\ IF Mut # "no-lend"
                  THEN /\ limit' = limit - 1
                  ELSE /\ TRUE
                       /\ limit' = limit
            /\ pc' = [pc EXCEPT ![self] = "b4"]
            /\ UNCHANGED << mon, ctr, lists, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

b4(self) == /\ pc[self] = "b4"
            /\ mon' = Mon(mon, (<<"gwr", self, 0, x[self], 1>>))
            /\ pc' = [pc EXCEPT ![self] = "t9b"]
            /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

t9b(self) == /\ pc[self] = "t9b"
             /\ op[self] \notin Long \/ passed
             /\ pc' = [pc EXCEPT ![self] = "t10"]
             /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, 
                             nx, over, done, passed, long, stack, a, todo, o, 
                             op, l, x, need >>

t10(self) == /\ pc[self] = "t10"
             /\ mon' = Mon2(mon, <<"en", self, 0, x[self]>>, <<"de", self, 0, op[self]>>)
             /\ done' = (done \cup {op[self]})
             /\ pc' = [pc EXCEPT ![self] = "t1"]
             /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, 
                             over, passed, long, stack, a, todo, o, op, l, x, 
                             need >>

t3(self) == /\ pc[self] = "t3"
            /\ idle' = idle + 1
            /\ pc' = [pc EXCEPT ![self] = "t4"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

t4(self) == /\ pc[self] = "t4"
            /\ \/ /\ ctr > 0
                  /\ ctr' = ctr - 1
                  /\ pc' = [pc EXCEPT ![self] = "t5"]
                  /\ left' = left
               \/ /\ left > 0
                  /\ left' = left - 1
                  /\ pc' = [pc EXCEPT ![self] = "x1"]
                  /\ ctr' = ctr
               \/ /\ over
                  /\ pc' = [pc EXCEPT ![self] = "Done"]
                  /\ UNCHANGED <<ctr, left>>
            /\ UNCHANGED << mon, lists, limit, active, idle, born, nx, over, 
                            done, passed, long, stack, a, todo, o, op, l, x, 
                            need >>

t5(self) == /\ pc[self] = "t5"
            /\ idle' = idle - 1
            /\ pc' = [pc EXCEPT ![self] = "t6"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

x1(self) == /\ pc[self] = "x1"
            /\ idle' = idle - 1
            /\ pc' = [pc EXCEPT ![self] = "x2"]
            /\ UNCHANGED << mon, ctr, lists, limit, active, born, left, nx, 
                            over, done, passed, long, stack, a, todo, o, op, l, 
                            x, need >>

x2(self) == /\ pc[self] = "x2"
            /\ active' = active - 1
            /\ pc' = [pc EXCEPT ![self] = "x3"]
            /\ UNCHANGED << mon, ctr, lists, limit, idle, born, left, nx, over, 
                            done, passed, long, stack, a, todo, o, op, l, x, 
                            need >>

x3(self) == /\ pc[self] = "x3"
            /\ IF ctr > 0 /\ Mut # "no-recovery"
                  THEN /\ ctr' = ctr - 1
                       /\ pc' = [pc EXCEPT ![self] = "x4"]
                       /\ born' = born
                  ELSE /\ born' = born \ {self}
                       /\ pc' = [pc EXCEPT ![self] = "t0"]
                       /\ ctr' = ctr
            /\ UNCHANGED << mon, lists, limit, active, idle, left, nx, over, 
                            done, passed, long, stack, a, todo, o, op, l, x, 
                            need >>

x4(self) == /\ pc[self] = "x4"
            /\ active' = active + 1
            /\ pc' = [pc EXCEPT ![self] = "t6"]
            /\ UNCHANGED << mon, ctr, lists, limit, idle, born, left, nx, over, 
                            done, passed, long, stack, a, todo, o, op, l, x, 
                            need >>

worker(self) == t0(self) \/ t1(self) \/ t6(self) \/ t7(self) \/ t8(self)
                   \/ t9(self) \/ b1(self) \/ b2(self) \/ b3(self)
                   \/ b4(self) \/ t9b(self) \/ t10(self) \/ t3(self)
                   \/ t4(self) \/ t5(self) \/ x1(self) \/ x2(self)
                   \/ x3(self) \/ x4(self)

k1 == /\ pc[100] = "k1"
      /\ Rest
      /\ IF \E p \in Slots : pc[p] = "t9b"
            THEN /\ mon' = [mon EXCEPT !.bad = @ \cup Errs(mon.s, <<"idle", 0, 0>>)]
                 /\ passed' = TRUE
                 /\ pc' = [pc EXCEPT ![100] = "k2"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "k3"]
                 /\ UNCHANGED << mon, passed >>
      /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, over, 
                      done, long, stack, a, todo, o, op, l, x, need >>

k2 == /\ pc[100] = "k2"
      /\ Rest
      /\ pc' = [pc EXCEPT ![100] = "k3"]
      /\ UNCHANGED << mon, ctr, lists, limit, active, idle, born, left, nx, 
                      over, done, passed, long, stack, a, todo, o, op, l, x, 
                      need >>

k3 == /\ pc[100] = "k3"
      /\ over' = TRUE
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << ctr, lists, limit, active, idle, born, left, nx, done, 
                      passed, long, stack, a, todo, o, op, l, x, need >>

silence == k1 \/ k2 \/ k3

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == silence
           \/ (\E self \in ProcSet: schedule(self))
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in Slots: worker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Counts == idle >= 0 /\ active >= 0 /\ limit >= MaxT
(* instances *)
ScriptA == (1 :> <<1, 2>> @@ 2 :> <<3>>)
PrioA   == <<3, 0, 4>>
ScriptB == (1 :> <<2, 3, 1>>)
PrioB   == <<4, 3, 3>>
ScriptC == (1 :> <<1, 2>>)
ScriptD == (1 :> <<1, 2, 3, 4>>)
PrioD   == <<3, 2, 4, 0>>
Perms == Permutations(Slots)
=============================================================================
