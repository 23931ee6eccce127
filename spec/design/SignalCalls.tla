----------------------------- MODULE SignalCalls -----------------------------
(* signal_p: emitting queues calls with tickets, skip_all makes tickets void,
   batch_updates queues at most one call at a time, disconnecting disables the
   handler (Cancel.tla has the details) and removes it. One connection exists
   from the start, "conn" connects a second one.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Mode, Execs, Mut

Users == DOMAIN Script
Script1 == << <<"emit", "emit">>, <<"emit", "disc">> >>
Script2 == << <<"emit", "skip", "emit">>, <<"emit">> >>
Script3 == << <<"emit", "disc">>, <<"conn", "emit">> >>
Script4 == << <<"emit", "emit">>, <<"die">> >>
Script5 == << <<"emit", "emit">>, <<"emit">> >>
Script6 == << <<"emit", "disc">>, <<"emit">> >>
Parallel == Cardinality(Execs) > 1
Md == IF Mode = "single" THEN 1 ELSE 0

(* --algorithm SignalCalls
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>,
                     <<"dq", 0, 0, 0, IF Parallel THEN "global" ELSE "serial", 3, -1>>,
                     <<"ds", 0, 0, 0, 0, -1>>, <<"sc", 0, 0, 0, 0, 0, Md>>, <<"scr", 0, 0, 0>> >>),
    list = <<0>>,                              \* the handlers connected
    pend = [h \in {0, 1} |-> [q |-> FALSE, v |-> 0]],
    off = {}, act = [h \in {0, 1} |-> 0],      \* the cancelables
    jobs = <<>>, nm = 0, nk = 0, nx = 0, over = FALSE;
macro ev(e) begin mon := Mon(mon, e) end macro;

process user \in Users
variables i = 1, m = 0, k = 0, todo = <<>>, tick = 0, was = FALSE;
begin
u1: while i <= Len(Script[self]) do
        if Script[self][i] = "emit" then
            nm := nm + 1; m := nm; ev(<<"em", self, 0, m, 0>>);
u2:         todo := list;
u3:         while todo # <<>> do
                was := pend[Head(todo)].q; tick := pend[Head(todo)].v;
                pend[Head(todo)].q := TRUE;
u4:             if ~was \/ Mode = "single" then
                    jobs := Append(jobs, [h |-> Head(todo), m |-> m, t |-> tick])
                end if;
                todo := Tail(todo);
            end while;
u5:         ev(<<"emr", self, 0, m>>);
        elsif Script[self][i] = "skip" then
            nk := nk + 1; k := nk; ev(<<"sk", self, 0, k, 0>>);
u6:         todo := list;
u7:         while todo # <<>> do
                pend[Head(todo)] := IF Mut = "skip-keeps-bit"
                                    THEN [q |-> pend[Head(todo)].q, v |-> pend[Head(todo)].v + 1]
                                    ELSE [q |-> FALSE, v |-> pend[Head(todo)].v + 1];
                todo := Tail(todo);
            end while;
u8:         ev(<<"skr", self, 0, k, 0>>);
        elsif Script[self][i] = "conn" then
            ev(<<"sc", self, 0, 1, 0, 0, Md>>);
u9:         list := Append(list, 1);
            ev(<<"scr", self, 0, 1>>);
        elsif Script[self][i] = "disc" then
            nk := nk + 1; k := nk; ev(<<"dc", self, 0, k, 0>>);
ua:         if Mut # "only-removed" then off := off \cup {0} end if;
ub:         await act[0] = 0 \/ Mut = "no-wait";
uc:         was := 0 \in {list[n] : n \in DOMAIN list};
            list := SelectSeq(list, LAMBDA h : h # 0);
ud:         ev(<<"dcr", self, 0, k, IF was THEN 1 ELSE 0>>);
        else (* the signal is destroyed once nobody emits any more *)
            await \A p \in Users : p = self \/ pc[p] = "Done";
            nk := nk + 1; k := nk; ev(<<"sx", self, 0, k, 0>>);
ue:         todo := list; list := <<>>;
uf:         while todo # <<>> do
                off := off \cup {Head(todo)};
ug:             await act[Head(todo)] = 0 \/ Mut = "no-wait";
                todo := Tail(todo);
            end while;
uh:         ev(<<"sxr", self, 0, k, 0>>);
        end if;
ui:     i := i + 1;
    end while;
end process;

process exec \in Execs
variables j = [h |-> 0, m |-> 0, t |-> 0], x = 0;
begin
e1: await jobs # <<>> \/ over;
    if over then goto Done else j := Head(jobs); jobs := Tail(jobs) end if;
e2: if j.h \notin off then
        act[j.h] := act[j.h] + 1;
e3:     if pend[j.h].v = j.t \/ Mut = "no-ticket" then
            if Mut # "clear-late" then pend[j.h].q := FALSE end if;
e4:         nx := nx + 1; x := nx;
            ev(<<"st", self, 0, x, 0, 1, -1, "sg", j.h, j.m>>);
e5:         ev(<<"en", self, 0, x>>);
            if Mut = "clear-late" then pend[j.h].q := FALSE end if;
        end if;
e6:     act[j.h] := act[j.h] - 1;
    end if;
e7: goto e1;
end process;

process silence = 100
begin
k1: await /\ \A p \in Users : pc[p] = "Done"
          /\ \A p \in Execs : pc[p] = "e1"
          /\ jobs = <<>>;
    over := TRUE;
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, list, pend, off, act, jobs, nm, nk, nx, over, i, m, k, 
          todo, tick, was, j, x

vars == << pc, mon, list, pend, off, act, jobs, nm, nk, nx, over, i, m, k, 
           todo, tick, was, j, x >>

ProcSet == (Users) \cup (Execs) \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>,
                            <<"dq", 0, 0, 0, IF Parallel THEN "global" ELSE "serial", 3, -1>>,
                            <<"ds", 0, 0, 0, 0, -1>>, <<"sc", 0, 0, 0, 0, 0, Md>>, <<"scr", 0, 0, 0>> >>)
        /\ list = <<0>>
        /\ pend = [h \in {0, 1} |-> [q |-> FALSE, v |-> 0]]
        /\ off = {}
        /\ act = [h \in {0, 1} |-> 0]
        /\ jobs = <<>>
        /\ nm = 0
        /\ nk = 0
        /\ nx = 0
        /\ over = FALSE
        (* Process user *)
        /\ i = [self \in Users |-> 1]
        /\ m = [self \in Users |-> 0]
        /\ k = [self \in Users |-> 0]
        /\ todo = [self \in Users |-> <<>>]
        /\ tick = [self \in Users |-> 0]
        /\ was = [self \in Users |-> FALSE]
        (* Process exec *)
        /\ j = [self \in Execs |-> [h |-> 0, m |-> 0, t |-> 0]]
        /\ x = [self \in Execs |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self \in Users -> "u1"
                                        [] self \in Execs -> "e1"
                                        [] self = 100 -> "k1"]

u1(self) == /\ pc[self] = "u1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ IF Script[self][i[self]] = "emit"
                             THEN /\ nm' = nm + 1
                                  /\ m' = [m EXCEPT ![self] = nm']
                                  /\ mon' = Mon(mon, (<<"em", self, 0, m'[self], 0>>))
                                  /\ pc' = [pc EXCEPT ![self] = "u2"]
                                  /\ UNCHANGED << nk, k >>
                             ELSE /\ IF Script[self][i[self]] = "skip"
                                        THEN /\ nk' = nk + 1
                                             /\ k' = [k EXCEPT ![self] = nk']
                                             /\ mon' = Mon(mon, (<<"sk", self, 0, k'[self], 0>>))
                                             /\ pc' = [pc EXCEPT ![self] = "u6"]
                                        ELSE /\ IF Script[self][i[self]] = "conn"
                                                   THEN /\ mon' = Mon(mon, (<<"sc", self, 0, 1, 0, 0, Md>>))
                                                        /\ pc' = [pc EXCEPT ![self] = "u9"]
                                                        /\ UNCHANGED << nk, k >>
                                                   ELSE /\ IF Script[self][i[self]] = "disc"
                                                              THEN /\ nk' = nk + 1
                                                                   /\ k' = [k EXCEPT ![self] = nk']
                                                                   /\ mon' = Mon(mon, (<<"dc", self, 0, k'[self], 0>>))
                                                                   /\ pc' = [pc EXCEPT ![self] = "ua"]
                                                              ELSE /\ \A p \in Users : p = self \/ pc[p] = "Done"
                                                                   /\ nk' = nk + 1
                                                                   /\ k' = [k EXCEPT ![self] = nk']
                                                                   /\ mon' = Mon(mon, (<<"sx", self, 0, k'[self], 0>>))
                                                                   /\ pc' = [pc EXCEPT ![self] = "ue"]
                                  /\ UNCHANGED << nm, m >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, nm, nk, m, k >>
            /\ UNCHANGED << list, pend, off, act, jobs, nx, over, i, todo, 
                            tick, was, j, x >>

ui(self) == /\ pc[self] = "ui"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "u1"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            m, k, todo, tick, was, j, x >>

u2(self) == /\ pc[self] = "u2"
            /\ todo' = [todo EXCEPT ![self] = list]
            /\ pc' = [pc EXCEPT ![self] = "u3"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            i, m, k, tick, was, j, x >>

u3(self) == /\ pc[self] = "u3"
            /\ IF todo[self] # <<>>
                  THEN /\ was' = [was EXCEPT ![self] = pend[Head(todo[self])].q]
                       /\ tick' = [tick EXCEPT ![self] = pend[Head(todo[self])].v]
                       /\ pend' = [pend EXCEPT ![Head(todo[self])].q = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "u4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "u5"]
                       /\ UNCHANGED << pend, tick, was >>
            /\ UNCHANGED << mon, list, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, j, x >>

u4(self) == /\ pc[self] = "u4"
            /\ IF ~was[self] \/ Mode = "single"
                  THEN /\ jobs' = Append(jobs, [h |-> Head(todo[self]), m |-> m[self], t |-> tick[self]])
                  ELSE /\ TRUE
                       /\ jobs' = jobs
            /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
            /\ pc' = [pc EXCEPT ![self] = "u3"]
            /\ UNCHANGED << mon, list, pend, off, act, nm, nk, nx, over, i, m, 
                            k, tick, was, j, x >>

u5(self) == /\ pc[self] = "u5"
            /\ mon' = Mon(mon, (<<"emr", self, 0, m[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "ui"]
            /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

u6(self) == /\ pc[self] = "u6"
            /\ todo' = [todo EXCEPT ![self] = list]
            /\ pc' = [pc EXCEPT ![self] = "u7"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            i, m, k, tick, was, j, x >>

u7(self) == /\ pc[self] = "u7"
            /\ IF todo[self] # <<>>
                  THEN /\ pend' = [pend EXCEPT ![Head(todo[self])] = IF Mut = "skip-keeps-bit"
                                                                     THEN [q |-> pend[Head(todo[self])].q, v |-> pend[Head(todo[self])].v + 1]
                                                                     ELSE [q |-> FALSE, v |-> pend[Head(todo[self])].v + 1]]
                       /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
                       /\ pc' = [pc EXCEPT ![self] = "u7"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "u8"]
                       /\ UNCHANGED << pend, todo >>
            /\ UNCHANGED << mon, list, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, tick, was, j, x >>

u8(self) == /\ pc[self] = "u8"
            /\ mon' = Mon(mon, (<<"skr", self, 0, k[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "ui"]
            /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

u9(self) == /\ pc[self] = "u9"
            /\ list' = Append(list, 1)
            /\ mon' = Mon(mon, (<<"scr", self, 0, 1>>))
            /\ pc' = [pc EXCEPT ![self] = "ui"]
            /\ UNCHANGED << pend, off, act, jobs, nm, nk, nx, over, i, m, k, 
                            todo, tick, was, j, x >>

ua(self) == /\ pc[self] = "ua"
            /\ IF Mut # "only-removed"
                  THEN /\ off' = (off \cup {0})
                  ELSE /\ TRUE
                       /\ off' = off
            /\ pc' = [pc EXCEPT ![self] = "ub"]
            /\ UNCHANGED << mon, list, pend, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

ub(self) == /\ pc[self] = "ub"
            /\ act[0] = 0 \/ Mut = "no-wait"
            /\ pc' = [pc EXCEPT ![self] = "uc"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            i, m, k, todo, tick, was, j, x >>

uc(self) == /\ pc[self] = "uc"
            /\ was' = [was EXCEPT ![self] = 0 \in {list[n] : n \in DOMAIN list}]
            /\ list' = SelectSeq(list, LAMBDA h : h # 0)
            /\ pc' = [pc EXCEPT ![self] = "ud"]
            /\ UNCHANGED << mon, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, j, x >>

ud(self) == /\ pc[self] = "ud"
            /\ mon' = Mon(mon, (<<"dcr", self, 0, k[self], IF was[self] THEN 1 ELSE 0>>))
            /\ pc' = [pc EXCEPT ![self] = "ui"]
            /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

ue(self) == /\ pc[self] = "ue"
            /\ todo' = [todo EXCEPT ![self] = list]
            /\ list' = <<>>
            /\ pc' = [pc EXCEPT ![self] = "uf"]
            /\ UNCHANGED << mon, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, tick, was, j, x >>

uf(self) == /\ pc[self] = "uf"
            /\ IF todo[self] # <<>>
                  THEN /\ off' = (off \cup {Head(todo[self])})
                       /\ pc' = [pc EXCEPT ![self] = "ug"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "uh"]
                       /\ off' = off
            /\ UNCHANGED << mon, list, pend, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

ug(self) == /\ pc[self] = "ug"
            /\ act[Head(todo[self])] = 0 \/ Mut = "no-wait"
            /\ todo' = [todo EXCEPT ![self] = Tail(todo[self])]
            /\ pc' = [pc EXCEPT ![self] = "uf"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            i, m, k, tick, was, j, x >>

uh(self) == /\ pc[self] = "uh"
            /\ mon' = Mon(mon, (<<"sxr", self, 0, k[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "ui"]
            /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

user(self) == u1(self) \/ ui(self) \/ u2(self) \/ u3(self) \/ u4(self)
                 \/ u5(self) \/ u6(self) \/ u7(self) \/ u8(self)
                 \/ u9(self) \/ ua(self) \/ ub(self) \/ uc(self)
                 \/ ud(self) \/ ue(self) \/ uf(self) \/ ug(self)
                 \/ uh(self)

e1(self) == /\ pc[self] = "e1"
            /\ jobs # <<>> \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << jobs, j >>
                  ELSE /\ j' = [j EXCEPT ![self] = Head(jobs)]
                       /\ jobs' = Tail(jobs)
                       /\ pc' = [pc EXCEPT ![self] = "e2"]
            /\ UNCHANGED << mon, list, pend, off, act, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, x >>

e2(self) == /\ pc[self] = "e2"
            /\ IF j[self].h \notin off
                  THEN /\ act' = [act EXCEPT ![j[self].h] = act[j[self].h] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "e3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "e7"]
                       /\ act' = act
            /\ UNCHANGED << mon, list, pend, off, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

e3(self) == /\ pc[self] = "e3"
            /\ IF pend[j[self].h].v = j[self].t \/ Mut = "no-ticket"
                  THEN /\ IF Mut # "clear-late"
                             THEN /\ pend' = [pend EXCEPT ![j[self].h].q = FALSE]
                             ELSE /\ TRUE
                                  /\ pend' = pend
                       /\ pc' = [pc EXCEPT ![self] = "e4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "e6"]
                       /\ pend' = pend
            /\ UNCHANGED << mon, list, off, act, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

e4(self) == /\ pc[self] = "e4"
            /\ nx' = nx + 1
            /\ x' = [x EXCEPT ![self] = nx']
            /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], 0, 1, -1, "sg", j[self].h, j[self].m>>))
            /\ pc' = [pc EXCEPT ![self] = "e5"]
            /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, over, i, m, k, 
                            todo, tick, was, j >>

e5(self) == /\ pc[self] = "e5"
            /\ mon' = Mon(mon, (<<"en", self, 0, x[self]>>))
            /\ IF Mut = "clear-late"
                  THEN /\ pend' = [pend EXCEPT ![j[self].h].q = FALSE]
                  ELSE /\ TRUE
                       /\ pend' = pend
            /\ pc' = [pc EXCEPT ![self] = "e6"]
            /\ UNCHANGED << list, off, act, jobs, nm, nk, nx, over, i, m, k, 
                            todo, tick, was, j, x >>

e6(self) == /\ pc[self] = "e6"
            /\ act' = [act EXCEPT ![j[self].h] = act[j[self].h] - 1]
            /\ pc' = [pc EXCEPT ![self] = "e7"]
            /\ UNCHANGED << mon, list, pend, off, jobs, nm, nk, nx, over, i, m, 
                            k, todo, tick, was, j, x >>

e7(self) == /\ pc[self] = "e7"
            /\ pc' = [pc EXCEPT ![self] = "e1"]
            /\ UNCHANGED << mon, list, pend, off, act, jobs, nm, nk, nx, over, 
                            i, m, k, todo, tick, was, j, x >>

exec(self) == e1(self) \/ e2(self) \/ e3(self) \/ e4(self) \/ e5(self)
                 \/ e6(self) \/ e7(self)

k1 == /\ pc[100] = "k1"
      /\ /\ \A p \in Users : pc[p] = "Done"
         /\ \A p \in Execs : pc[p] = "e1"
         /\ jobs = <<>>
      /\ over' = TRUE
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << list, pend, off, act, jobs, nm, nk, nx, i, m, k, todo, 
                      tick, was, j, x >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == silence
           \/ (\E self \in Users: user(self))
           \/ (\E self \in Execs: exec(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Sane  == \A h \in {0, 1} : act[h] >= 0
=============================================================================
