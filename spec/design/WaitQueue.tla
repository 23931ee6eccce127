------------------------------ MODULE WaitQueue ------------------------------
(* waitable_queue over a serial inner queue: every submit queues the same
   worker, which takes one operation; a thread which waits takes over whatever
   is not being worked on. With Parallel the inner queue is a parallel one, so
   that workers overlap.

   Scripts: "op" submit, "one" wait_for_one, "all" wait_for_all.
   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Workers, Parallel, Mut

Clients == DOMAIN Script
Script1 == << <<"op", "all">>, <<"op", "one">> >>
Script2 == << <<"op", "op", "all">>, <<"all">> >>
Script3 == << <<"op", "op", "one", "one">>, <<"op">> >>
Script4 == << <<"op", "all">>, <<"op">> >>

(* --algorithm WaitQueue
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>,
                     <<"dq", 0, 0, 1, IF Parallel THEN "global" ELSE "serial", 3, -1>>,
                     <<"dq", 0, 0, 0, "waitable", 3, 1>> >>),
    lock = 0, active = FALSE, ops = <<>>, completed = 0, inner = 0,
    innerBusy = FALSE,                            \* the serial inner queue
    no = 0, nx = 0, nc = 0, over = FALSE;
macro ev(e) begin mon := Mon(mon, e) end macro;

procedure drain(where)
variables op = 0, x = 0;
begin
r1: await lock = 0 /\ (~active \/ Mut = "no-turns");
    if ops # <<>> then
        active := TRUE;
        op := Head(ops); ops := Tail(ops);
r2:     nx := nx + 1; x := nx;
        ev(<<"st", self, 0, x, 0, where, -1, "op", op, 0>>);
r3:     ev(<<"en", self, 0, x>>);
r4:     ev(<<"de", self, 0, op>>);
r5:     await lock = 0; completed := completed + 1;
        active := FALSE;
    end if;
r6: return;
end procedure;

process client \in Clients
variables i = 1, o = 0, c = 0, all = FALSE;
begin
c1: while i <= Len(Script[self]) do
        if Script[self][i] = "op" then
            no := no + 1; o := no; ev(<<"sub", self, 0, o, 0, -1>>);
c2:         await lock = 0; ops := Append(ops, o);
c3:         if Mut # "no-schedule" then inner := inner + 1 end if;
            ev(<<"subr", self, 0, o>>);
        else
            nc := nc + 1; c := nc; all := Script[self][i] = "all";
            ev(<<IF all THEN "wa" ELSE "wo", self, 0, c, 0>>);
            (* wait_for_all: again while active or something is queued *)
w1:         await lock = 0; lock := self;
w2:         if all /\ ~(active \/ ops # <<>>) then lock := 0; goto w8 end if;
            (* wait_for_one *)
w3:         if completed = 0 \/ (Mut = "no-count" /\ ~all /\ (active \/ ops # <<>>)) then
                if active then
                    lock := 0;
w4:                 await lock = 0 /\ ~active;
                    if Mut = "active-suffices" /\ ~all then goto w8
                    else lock := self; goto w3 end if
                elsif ops = <<>> then
                    (* nothing to wait for *)
                    if all then goto w2 else lock := 0; goto w8 end if
                elsif Mut = "no-takeover" then
                    lock := 0;
w6:                 await completed > 0 \/ ops = <<>>; goto w1
                else
                    lock := 0;
                    call drain(0);
w5:                 await lock = 0; lock := self; goto w3
                end if
            end if;
w7:         completed := completed - 1;
            if all /\ Mut # "all-once" then goto w2 else lock := 0 end if;
w8:         ev(<<IF all THEN "war" ELSE "wor", self, 0, c>>);
        end if;
c9:     i := i + 1;
    end while;
end process;

(* threads of the inner queue run the worker, one at a time if it is serial *)
process worker \in Workers
begin
v1: while TRUE do
        await (inner > 0 /\ (Parallel \/ ~innerBusy)) \/ over;
        if over then goto Done else inner := inner - 1; innerBusy := TRUE end if;
v2:     call drain(1);
v3:     innerBusy := FALSE;
    end while;
end process;

process silence = 100
begin
k1: await /\ \A p \in Clients : pc[p] = "Done"
          /\ \A p \in Workers : pc[p] = "v1"
          /\ inner = 0 \/ Workers = {};
    over := TRUE;
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
CONSTANT defaultInitValue
VARIABLES pc, mon, lock, active, ops, completed, inner, innerBusy, no, nx, nc, 
          over, stack, where, op, x, i, o, c, all

vars == << pc, mon, lock, active, ops, completed, inner, innerBusy, no, nx, 
           nc, over, stack, where, op, x, i, o, c, all >>

ProcSet == (Clients) \cup (Workers) \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>,
                            <<"dq", 0, 0, 1, IF Parallel THEN "global" ELSE "serial", 3, -1>>,
                            <<"dq", 0, 0, 0, "waitable", 3, 1>> >>)
        /\ lock = 0
        /\ active = FALSE
        /\ ops = <<>>
        /\ completed = 0
        /\ inner = 0
        /\ innerBusy = FALSE
        /\ no = 0
        /\ nx = 0
        /\ nc = 0
        /\ over = FALSE
        (* Procedure drain *)
        /\ where = [ self \in ProcSet |-> defaultInitValue]
        /\ op = [ self \in ProcSet |-> 0]
        /\ x = [ self \in ProcSet |-> 0]
        (* Process client *)
        /\ i = [self \in Clients |-> 1]
        /\ o = [self \in Clients |-> 0]
        /\ c = [self \in Clients |-> 0]
        /\ all = [self \in Clients |-> FALSE]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "c1"
                                        [] self \in Workers -> "v1"
                                        [] self = 100 -> "k1"]

r1(self) == /\ pc[self] = "r1"
            /\ lock = 0 /\ (~active \/ Mut = "no-turns")
            /\ IF ops # <<>>
                  THEN /\ active' = TRUE
                       /\ op' = [op EXCEPT ![self] = Head(ops)]
                       /\ ops' = Tail(ops)
                       /\ pc' = [pc EXCEPT ![self] = "r2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "r6"]
                       /\ UNCHANGED << active, ops, op >>
            /\ UNCHANGED << mon, lock, completed, inner, innerBusy, no, nx, nc, 
                            over, stack, where, x, i, o, c, all >>

r2(self) == /\ pc[self] = "r2"
            /\ nx' = nx + 1
            /\ x' = [x EXCEPT ![self] = nx']
            /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], 0, where[self], -1, "op", op[self], 0>>))
            /\ pc' = [pc EXCEPT ![self] = "r3"]
            /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, no, 
                            nc, over, stack, where, op, i, o, c, all >>

r3(self) == /\ pc[self] = "r3"
            /\ mon' = Mon(mon, (<<"en", self, 0, x[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "r4"]
            /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

r4(self) == /\ pc[self] = "r4"
            /\ mon' = Mon(mon, (<<"de", self, 0, op[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "r5"]
            /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

r5(self) == /\ pc[self] = "r5"
            /\ lock = 0
            /\ completed' = completed + 1
            /\ active' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "r6"]
            /\ UNCHANGED << mon, lock, ops, inner, innerBusy, no, nx, nc, over, 
                            stack, where, op, x, i, o, c, all >>

r6(self) == /\ pc[self] = "r6"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ op' = [op EXCEPT ![self] = Head(stack[self]).op]
            /\ x' = [x EXCEPT ![self] = Head(stack[self]).x]
            /\ where' = [where EXCEPT ![self] = Head(stack[self]).where]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << mon, lock, active, ops, completed, inner, 
                            innerBusy, no, nx, nc, over, i, o, c, all >>

drain(self) == r1(self) \/ r2(self) \/ r3(self) \/ r4(self) \/ r5(self)
                  \/ r6(self)

c1(self) == /\ pc[self] = "c1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ IF Script[self][i[self]] = "op"
                             THEN /\ no' = no + 1
                                  /\ o' = [o EXCEPT ![self] = no']
                                  /\ mon' = Mon(mon, (<<"sub", self, 0, o'[self], 0, -1>>))
                                  /\ pc' = [pc EXCEPT ![self] = "c2"]
                                  /\ UNCHANGED << nc, c, all >>
                             ELSE /\ nc' = nc + 1
                                  /\ c' = [c EXCEPT ![self] = nc']
                                  /\ all' = [all EXCEPT ![self] = Script[self][i[self]] = "all"]
                                  /\ mon' = Mon(mon, (<<IF all'[self] THEN "wa" ELSE "wo", self, 0, c'[self], 0>>))
                                  /\ pc' = [pc EXCEPT ![self] = "w1"]
                                  /\ UNCHANGED << no, o >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, no, nc, o, c, all >>
            /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, nx, 
                            over, stack, where, op, x, i >>

c9(self) == /\ pc[self] = "c9"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << mon, lock, active, ops, completed, inner, 
                            innerBusy, no, nx, nc, over, stack, where, op, x, 
                            o, c, all >>

c2(self) == /\ pc[self] = "c2"
            /\ lock = 0
            /\ ops' = Append(ops, o[self])
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << mon, lock, active, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

c3(self) == /\ pc[self] = "c3"
            /\ IF Mut # "no-schedule"
                  THEN /\ inner' = inner + 1
                  ELSE /\ TRUE
                       /\ inner' = inner
            /\ mon' = Mon(mon, (<<"subr", self, 0, o[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << lock, active, ops, completed, innerBusy, no, nx, 
                            nc, over, stack, where, op, x, i, o, c, all >>

w1(self) == /\ pc[self] = "w1"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << mon, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

w2(self) == /\ pc[self] = "w2"
            /\ IF all[self] /\ ~(active \/ ops # <<>>)
                  THEN /\ lock' = 0
                       /\ pc' = [pc EXCEPT ![self] = "w8"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w3"]
                       /\ lock' = lock
            /\ UNCHANGED << mon, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

w3(self) == /\ pc[self] = "w3"
            /\ IF completed = 0 \/ (Mut = "no-count" /\ ~all[self] /\ (active \/ ops # <<>>))
                  THEN /\ IF active
                             THEN /\ lock' = 0
                                  /\ pc' = [pc EXCEPT ![self] = "w4"]
                                  /\ UNCHANGED << stack, where, op, x >>
                             ELSE /\ IF ops = <<>>
                                        THEN /\ IF all[self]
                                                   THEN /\ pc' = [pc EXCEPT ![self] = "w2"]
                                                        /\ lock' = lock
                                                   ELSE /\ lock' = 0
                                                        /\ pc' = [pc EXCEPT ![self] = "w8"]
                                             /\ UNCHANGED << stack, where, op, 
                                                             x >>
                                        ELSE /\ IF Mut = "no-takeover"
                                                   THEN /\ lock' = 0
                                                        /\ pc' = [pc EXCEPT ![self] = "w6"]
                                                        /\ UNCHANGED << stack, 
                                                                        where, 
                                                                        op, x >>
                                                   ELSE /\ lock' = 0
                                                        /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "drain",
                                                                                                    pc        |->  "w5",
                                                                                                    op        |->  op[self],
                                                                                                    x         |->  x[self],
                                                                                                    where     |->  where[self] ] >>
                                                                                                \o stack[self]]
                                                           /\ where' = [where EXCEPT ![self] = 0]
                                                        /\ op' = [op EXCEPT ![self] = 0]
                                                        /\ x' = [x EXCEPT ![self] = 0]
                                                        /\ pc' = [pc EXCEPT ![self] = "r1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w7"]
                       /\ UNCHANGED << lock, stack, where, op, x >>
            /\ UNCHANGED << mon, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, i, o, c, all >>

w4(self) == /\ pc[self] = "w4"
            /\ lock = 0 /\ ~active
            /\ IF Mut = "active-suffices" /\ ~all[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "w8"]
                       /\ lock' = lock
                  ELSE /\ lock' = self
                       /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << mon, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

w6(self) == /\ pc[self] = "w6"
            /\ completed > 0 \/ ops = <<>>
            /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << mon, lock, active, ops, completed, inner, 
                            innerBusy, no, nx, nc, over, stack, where, op, x, 
                            i, o, c, all >>

w5(self) == /\ pc[self] = "w5"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << mon, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

w7(self) == /\ pc[self] = "w7"
            /\ completed' = completed - 1
            /\ IF all[self] /\ Mut # "all-once"
                  THEN /\ pc' = [pc EXCEPT ![self] = "w2"]
                       /\ lock' = lock
                  ELSE /\ lock' = 0
                       /\ pc' = [pc EXCEPT ![self] = "w8"]
            /\ UNCHANGED << mon, active, ops, inner, innerBusy, no, nx, nc, 
                            over, stack, where, op, x, i, o, c, all >>

w8(self) == /\ pc[self] = "w8"
            /\ mon' = Mon(mon, (<<IF all[self] THEN "war" ELSE "wor", self, 0, c[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, no, 
                            nx, nc, over, stack, where, op, x, i, o, c, all >>

client(self) == c1(self) \/ c9(self) \/ c2(self) \/ c3(self) \/ w1(self)
                   \/ w2(self) \/ w3(self) \/ w4(self) \/ w6(self)
                   \/ w5(self) \/ w7(self) \/ w8(self)

v1(self) == /\ pc[self] = "v1"
            /\ (inner > 0 /\ (Parallel \/ ~innerBusy)) \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << inner, innerBusy >>
                  ELSE /\ inner' = inner - 1
                       /\ innerBusy' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "v2"]
            /\ UNCHANGED << mon, lock, active, ops, completed, no, nx, nc, 
                            over, stack, where, op, x, i, o, c, all >>

v2(self) == /\ pc[self] = "v2"
            /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "drain",
                                                        pc        |->  "v3",
                                                        op        |->  op[self],
                                                        x         |->  x[self],
                                                        where     |->  where[self] ] >>
                                                    \o stack[self]]
               /\ where' = [where EXCEPT ![self] = 1]
            /\ op' = [op EXCEPT ![self] = 0]
            /\ x' = [x EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "r1"]
            /\ UNCHANGED << mon, lock, active, ops, completed, inner, 
                            innerBusy, no, nx, nc, over, i, o, c, all >>

v3(self) == /\ pc[self] = "v3"
            /\ innerBusy' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "v1"]
            /\ UNCHANGED << mon, lock, active, ops, completed, inner, no, nx, 
                            nc, over, stack, where, op, x, i, o, c, all >>

worker(self) == v1(self) \/ v2(self) \/ v3(self)

k1 == /\ pc[100] = "k1"
      /\ /\ \A p \in Clients : pc[p] = "Done"
         /\ \A p \in Workers : pc[p] = "v1"
         /\ inner = 0 \/ Workers = {}
      /\ over' = TRUE
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << lock, active, ops, completed, inner, innerBusy, no, nx, 
                      nc, stack, where, op, x, i, o, c, all >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == silence
           \/ (\E self \in ProcSet: drain(self))
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in Workers: worker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Sane == completed >= 0
=============================================================================
