----------------------------- MODULE Consumable -----------------------------
(* naive_group and naive_consumable: operations are counted by the consumable
   of the group, waiting closes it and starts a new one which is chained to it.

   Clients run: "op" submit, "wait" wait without end, "poll" wait with
   timeout 0, "note" notify. Executors take what has been queued in any order.

   Mut selects a deviation the contract has to notice.                       *)
EXTENDS Monitor
CONSTANTS Script, Executors, Mut

Clients == DOMAIN Script
Script1 == << <<"op", "wait">>, <<"op", "poll">> >>
ScriptN == << <<"op", "note">>, <<"op">> >>
ScriptQ == << <<"op", "wait">>, <<"wait">> >>
Script2 == << <<"op", "wait", "op">>, <<"op", "wait">>, <<"op", "poll">> >>
Helper(k) == 50 + k

(* --algorithm Consumable
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "global", 3, -1>> >>),
    cons = << [res |-> 1, pre |-> 0] >>,   \* done iff res = 0
    cur = 1, jobs = {}, notes = {}, no = 0, nx = 0, nc = 0, over = FALSE;
define
    Dn(k) == cons[k].res = 0
    OwnFree == IF Mut = "no-own-release" THEN 0 ELSE 1
    (* the helper is given the consumable, to be waited for *)
end define;
macro ev(e) begin mon := Mon(mon, e) end macro;

process client \in Clients
variables i = 1, o = 0, c = 0, wc = 0, stack = <<>>, res = 1, r = 0;
begin
c1: while i <= Len(Script[self]) do
        if Script[self][i] = "op" then
            no := no + 1; o := no; ev(<<"sub", self, 0, o, 0, 0>>);
a1:         c := cur;
a2:         if cons[c].res > 0 \/ Mut = "no-retry" then
                if cons[c].res > 0 then cons[c].res := cons[c].res + 1 end if
            else goto a1 end if;
a3:         jobs := jobs \cup {[o |-> o, c |-> c]};
a4:         ev(<<"subr", self, 0, o>>);
        else
            if Script[self][i] = "note" then
                no := no + 1; o := no; ev(<<"gn", self, 0, o, 0, 0>>); goto cl1
            else
                nc := nc + 1; wc := nc;
                ev(<<"gw", self, 0, wc, 0, IF Script[self][i] = "poll" THEN 0 ELSE -1>>)
            end if;
b1:         c := cur; res := 1;
b2:         r := cons[c].res;
b3:         if r = 1 /\ (c = cur \/ Mut = "no-recheck") then
                stack := IF cons[c].pre # 0 THEN <<cons[c].pre>> ELSE <<>>; o := c;
                goto d1
            end if;
cl1:        c := cur;
cl2:        if c = cur then
                cons := Append(cons, [res |-> 1, pre |-> IF Mut = "no-chain" THEN 0 ELSE c]);
                cur := Len(cons);
            else goto cl1 end if;
cl3:        cons[c].res := cons[c].res - OwnFree;
            if Script[self][i] = "note" then
cl4:            notes := notes \cup {[o |-> o, c |-> c]};
cl5:            ev(<<"gnr", self, 0, o>>); goto b9
            else stack := <<c>>; o := 0 end if;
            (* down the chain, then wait for each on the way up *)
d1:         while stack # <<>> /\ cons[Head(stack)].pre # 0 do
                stack := <<cons[Head(stack)].pre>> \o stack;
            end while;
d2:         while stack # <<>> do
                if Script[self][i] = "poll" then
                    if ~Dn(Head(stack)) then res := 0; stack := <<>>; goto b8 end if
                else await Dn(Head(stack)) end if;
d3:             stack := Tail(stack);
                if stack # <<>> then cons[Head(stack)].pre := 0
                elsif o # 0 then cons[o].pre := 0 end if;
            end while;
b8:         ev(<<"gwr", self, 0, wc, res>>);
b9:         o := 0;
        end if;
c9:     i := i + 1;
    end while;
end process;

(* the operation of notify waits on a thread of the pool, then submits *)
process helper \in {Helper(k) : k \in Clients}
variables n = [o |-> 0, c |-> 0], hs = <<>>;
begin
h1: while TRUE do
        await notes # {} \/ over;
        if over then goto Done else
            with nn \in notes do n := nn; notes := notes \ {nn}; hs := <<nn.c>> end with
        end if;
h2:     while cons[Head(hs)].pre # 0 do hs := <<cons[Head(hs)].pre>> \o hs end while;
h3:     while hs # <<>> do
            await Dn(Head(hs)) \/ Mut = "no-notify-wait";
h4:         hs := Tail(hs);
            if hs # <<>> then cons[Head(hs)].pre := 0 end if;
        end while;
h5:     jobs := jobs \cup {[o |-> n.o, c |-> 0]};
    end while;
end process;

process exec \in Executors
variables j = [o |-> 0, c |-> 0], x = 0;
begin
e1: while TRUE do
        await jobs # {} \/ over;
        if over then goto Done else
            with y \in jobs do j := y; jobs := jobs \ {y} end with
        end if;
e2:     nx := nx + 1; x := nx;
        ev(<<"st", self, 0, x, 0, 1, -1, "op", j.o, 0>>);
        if Mut = "consume-first" /\ j.c # 0 then cons[j.c].res := cons[j.c].res - 1 end if;
e3:     ev(<<"en", self, 0, x>>);
e4:     if j.c # 0 /\ Mut # "consume-first" then cons[j.c].res := cons[j.c].res - 1 end if;
e5:     ev(<<"de", self, 0, j.o>>);
    end while;
end process;

process silence = 100
begin
k1: await /\ \A p \in Clients : pc[p] = "Done"
          /\ \A p \in Clients : pc[Helper(p)] = "h1"
          /\ \A p \in Executors : pc[p] = "e1"
          /\ jobs = {} /\ notes = {};
    over := TRUE;
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, cons, cur, jobs, notes, no, nx, nc, over

(* define statement *)
Dn(k) == cons[k].res = 0
OwnFree == IF Mut = "no-own-release" THEN 0 ELSE 1

VARIABLES i, o, c, wc, stack, res, r, n, hs, j, x

vars == << pc, mon, cons, cur, jobs, notes, no, nx, nc, over, i, o, c, wc, 
           stack, res, r, n, hs, j, x >>

ProcSet == (Clients) \cup ({Helper(k) : k \in Clients}) \cup (Executors) \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "global", 3, -1>> >>)
        /\ cons = << [res |-> 1, pre |-> 0] >>
        /\ cur = 1
        /\ jobs = {}
        /\ notes = {}
        /\ no = 0
        /\ nx = 0
        /\ nc = 0
        /\ over = FALSE
        (* Process client *)
        /\ i = [self \in Clients |-> 1]
        /\ o = [self \in Clients |-> 0]
        /\ c = [self \in Clients |-> 0]
        /\ wc = [self \in Clients |-> 0]
        /\ stack = [self \in Clients |-> <<>>]
        /\ res = [self \in Clients |-> 1]
        /\ r = [self \in Clients |-> 0]
        (* Process helper *)
        /\ n = [self \in {Helper(k) : k \in Clients} |-> [o |-> 0, c |-> 0]]
        /\ hs = [self \in {Helper(k) : k \in Clients} |-> <<>>]
        (* Process exec *)
        /\ j = [self \in Executors |-> [o |-> 0, c |-> 0]]
        /\ x = [self \in Executors |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "c1"
                                        [] self \in {Helper(k) : k \in Clients} -> "h1"
                                        [] self \in Executors -> "e1"
                                        [] self = 100 -> "k1"]

c1(self) == /\ pc[self] = "c1"
            /\ IF i[self] <= Len(Script[self])
                  THEN /\ IF Script[self][i[self]] = "op"
                             THEN /\ no' = no + 1
                                  /\ o' = [o EXCEPT ![self] = no']
                                  /\ mon' = Mon(mon, (<<"sub", self, 0, o'[self], 0, 0>>))
                                  /\ pc' = [pc EXCEPT ![self] = "a1"]
                                  /\ UNCHANGED << nc, wc >>
                             ELSE /\ IF Script[self][i[self]] = "note"
                                        THEN /\ no' = no + 1
                                             /\ o' = [o EXCEPT ![self] = no']
                                             /\ mon' = Mon(mon, (<<"gn", self, 0, o'[self], 0, 0>>))
                                             /\ pc' = [pc EXCEPT ![self] = "cl1"]
                                             /\ UNCHANGED << nc, wc >>
                                        ELSE /\ nc' = nc + 1
                                             /\ wc' = [wc EXCEPT ![self] = nc']
                                             /\ mon' = Mon(mon, (<<"gw", self, 0, wc'[self], 0, IF Script[self][i[self]] = "poll" THEN 0 ELSE -1>>))
                                             /\ pc' = [pc EXCEPT ![self] = "b1"]
                                             /\ UNCHANGED << no, o >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << mon, no, nc, o, wc >>
            /\ UNCHANGED << cons, cur, jobs, notes, nx, over, i, c, stack, res, 
                            r, n, hs, j, x >>

c9(self) == /\ pc[self] = "c9"
            /\ i' = [i EXCEPT ![self] = i[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, o, 
                            c, wc, stack, res, r, n, hs, j, x >>

a1(self) == /\ pc[self] = "a1"
            /\ c' = [c EXCEPT ![self] = cur]
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, wc, stack, res, r, n, hs, j, x >>

a2(self) == /\ pc[self] = "a2"
            /\ IF cons[c[self]].res > 0 \/ Mut = "no-retry"
                  THEN /\ IF cons[c[self]].res > 0
                             THEN /\ cons' = [cons EXCEPT ![c[self]].res = cons[c[self]].res + 1]
                             ELSE /\ TRUE
                                  /\ cons' = cons
                       /\ pc' = [pc EXCEPT ![self] = "a3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a1"]
                       /\ cons' = cons
            /\ UNCHANGED << mon, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

a3(self) == /\ pc[self] = "a3"
            /\ jobs' = (jobs \cup {[o |-> o[self], c |-> c[self]]})
            /\ pc' = [pc EXCEPT ![self] = "a4"]
            /\ UNCHANGED << mon, cons, cur, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

a4(self) == /\ pc[self] = "a4"
            /\ mon' = Mon(mon, (<<"subr", self, 0, o[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

b1(self) == /\ pc[self] = "b1"
            /\ c' = [c EXCEPT ![self] = cur]
            /\ res' = [res EXCEPT ![self] = 1]
            /\ pc' = [pc EXCEPT ![self] = "b2"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, wc, stack, r, n, hs, j, x >>

b2(self) == /\ pc[self] = "b2"
            /\ r' = [r EXCEPT ![self] = cons[c[self]].res]
            /\ pc' = [pc EXCEPT ![self] = "b3"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, c, wc, stack, res, n, hs, j, x >>

b3(self) == /\ pc[self] = "b3"
            /\ IF r[self] = 1 /\ (c[self] = cur \/ Mut = "no-recheck")
                  THEN /\ stack' = [stack EXCEPT ![self] = IF cons[c[self]].pre # 0 THEN <<cons[c[self]].pre>> ELSE <<>>]
                       /\ o' = [o EXCEPT ![self] = c[self]]
                       /\ pc' = [pc EXCEPT ![self] = "d1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "cl1"]
                       /\ UNCHANGED << o, stack >>
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            c, wc, res, r, n, hs, j, x >>

cl1(self) == /\ pc[self] = "cl1"
             /\ c' = [c EXCEPT ![self] = cur]
             /\ pc' = [pc EXCEPT ![self] = "cl2"]
             /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                             o, wc, stack, res, r, n, hs, j, x >>

cl2(self) == /\ pc[self] = "cl2"
             /\ IF c[self] = cur
                   THEN /\ cons' = Append(cons, [res |-> 1, pre |-> IF Mut = "no-chain" THEN 0 ELSE c[self]])
                        /\ cur' = Len(cons')
                        /\ pc' = [pc EXCEPT ![self] = "cl3"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "cl1"]
                        /\ UNCHANGED << cons, cur >>
             /\ UNCHANGED << mon, jobs, notes, no, nx, nc, over, i, o, c, wc, 
                             stack, res, r, n, hs, j, x >>

cl3(self) == /\ pc[self] = "cl3"
             /\ cons' = [cons EXCEPT ![c[self]].res = cons[c[self]].res - OwnFree]
             /\ IF Script[self][i[self]] = "note"
                   THEN /\ pc' = [pc EXCEPT ![self] = "cl4"]
                        /\ UNCHANGED << o, stack >>
                   ELSE /\ stack' = [stack EXCEPT ![self] = <<c[self]>>]
                        /\ o' = [o EXCEPT ![self] = 0]
                        /\ pc' = [pc EXCEPT ![self] = "d1"]
             /\ UNCHANGED << mon, cur, jobs, notes, no, nx, nc, over, i, c, wc, 
                             res, r, n, hs, j, x >>

cl4(self) == /\ pc[self] = "cl4"
             /\ notes' = (notes \cup {[o |-> o[self], c |-> c[self]]})
             /\ pc' = [pc EXCEPT ![self] = "cl5"]
             /\ UNCHANGED << mon, cons, cur, jobs, no, nx, nc, over, i, o, c, 
                             wc, stack, res, r, n, hs, j, x >>

cl5(self) == /\ pc[self] = "cl5"
             /\ mon' = Mon(mon, (<<"gnr", self, 0, o[self]>>))
             /\ pc' = [pc EXCEPT ![self] = "b9"]
             /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                             wc, stack, res, r, n, hs, j, x >>

d1(self) == /\ pc[self] = "d1"
            /\ IF stack[self] # <<>> /\ cons[Head(stack[self])].pre # 0
                  THEN /\ stack' = [stack EXCEPT ![self] = <<cons[Head(stack[self])].pre>> \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "d1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "d2"]
                       /\ stack' = stack
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, c, wc, res, r, n, hs, j, x >>

d2(self) == /\ pc[self] = "d2"
            /\ IF stack[self] # <<>>
                  THEN /\ IF Script[self][i[self]] = "poll"
                             THEN /\ IF ~Dn(Head(stack[self]))
                                        THEN /\ res' = [res EXCEPT ![self] = 0]
                                             /\ stack' = [stack EXCEPT ![self] = <<>>]
                                             /\ pc' = [pc EXCEPT ![self] = "b8"]
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "d3"]
                                             /\ UNCHANGED << stack, res >>
                             ELSE /\ Dn(Head(stack[self]))
                                  /\ pc' = [pc EXCEPT ![self] = "d3"]
                                  /\ UNCHANGED << stack, res >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "b8"]
                       /\ UNCHANGED << stack, res >>
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, c, wc, r, n, hs, j, x >>

d3(self) == /\ pc[self] = "d3"
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ IF stack'[self] # <<>>
                  THEN /\ cons' = [cons EXCEPT ![Head(stack'[self])].pre = 0]
                  ELSE /\ IF o[self] # 0
                             THEN /\ cons' = [cons EXCEPT ![o[self]].pre = 0]
                             ELSE /\ TRUE
                                  /\ cons' = cons
            /\ pc' = [pc EXCEPT ![self] = "d2"]
            /\ UNCHANGED << mon, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, res, r, n, hs, j, x >>

b8(self) == /\ pc[self] = "b8"
            /\ mon' = Mon(mon, (<<"gwr", self, 0, wc[self], res[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "b9"]
            /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

b9(self) == /\ pc[self] = "b9"
            /\ o' = [o EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "c9"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            c, wc, stack, res, r, n, hs, j, x >>

client(self) == c1(self) \/ c9(self) \/ a1(self) \/ a2(self) \/ a3(self)
                   \/ a4(self) \/ b1(self) \/ b2(self) \/ b3(self)
                   \/ cl1(self) \/ cl2(self) \/ cl3(self) \/ cl4(self)
                   \/ cl5(self) \/ d1(self) \/ d2(self) \/ d3(self)
                   \/ b8(self) \/ b9(self)

h1(self) == /\ pc[self] = "h1"
            /\ notes # {} \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << notes, n, hs >>
                  ELSE /\ \E nn \in notes:
                            /\ n' = [n EXCEPT ![self] = nn]
                            /\ notes' = notes \ {nn}
                            /\ hs' = [hs EXCEPT ![self] = <<nn.c>>]
                       /\ pc' = [pc EXCEPT ![self] = "h2"]
            /\ UNCHANGED << mon, cons, cur, jobs, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, j, x >>

h2(self) == /\ pc[self] = "h2"
            /\ IF cons[Head(hs[self])].pre # 0
                  THEN /\ hs' = [hs EXCEPT ![self] = <<cons[Head(hs[self])].pre>> \o hs[self]]
                       /\ pc' = [pc EXCEPT ![self] = "h2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "h3"]
                       /\ hs' = hs
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, c, wc, stack, res, r, n, j, x >>

h3(self) == /\ pc[self] = "h3"
            /\ IF hs[self] # <<>>
                  THEN /\ Dn(Head(hs[self])) \/ Mut = "no-notify-wait"
                       /\ pc' = [pc EXCEPT ![self] = "h4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "h5"]
            /\ UNCHANGED << mon, cons, cur, jobs, notes, no, nx, nc, over, i, 
                            o, c, wc, stack, res, r, n, hs, j, x >>

h4(self) == /\ pc[self] = "h4"
            /\ hs' = [hs EXCEPT ![self] = Tail(hs[self])]
            /\ IF hs'[self] # <<>>
                  THEN /\ cons' = [cons EXCEPT ![Head(hs'[self])].pre = 0]
                  ELSE /\ TRUE
                       /\ cons' = cons
            /\ pc' = [pc EXCEPT ![self] = "h3"]
            /\ UNCHANGED << mon, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, j, x >>

h5(self) == /\ pc[self] = "h5"
            /\ jobs' = (jobs \cup {[o |-> n[self].o, c |-> 0]})
            /\ pc' = [pc EXCEPT ![self] = "h1"]
            /\ UNCHANGED << mon, cons, cur, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

helper(self) == h1(self) \/ h2(self) \/ h3(self) \/ h4(self) \/ h5(self)

e1(self) == /\ pc[self] = "e1"
            /\ jobs # {} \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << jobs, j >>
                  ELSE /\ \E y \in jobs:
                            /\ j' = [j EXCEPT ![self] = y]
                            /\ jobs' = jobs \ {y}
                       /\ pc' = [pc EXCEPT ![self] = "e2"]
            /\ UNCHANGED << mon, cons, cur, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, x >>

e2(self) == /\ pc[self] = "e2"
            /\ nx' = nx + 1
            /\ x' = [x EXCEPT ![self] = nx']
            /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], 0, 1, -1, "op", j[self].o, 0>>))
            /\ IF Mut = "consume-first" /\ j[self].c # 0
                  THEN /\ cons' = [cons EXCEPT ![j[self].c].res = cons[j[self].c].res - 1]
                  ELSE /\ TRUE
                       /\ cons' = cons
            /\ pc' = [pc EXCEPT ![self] = "e3"]
            /\ UNCHANGED << cur, jobs, notes, no, nc, over, i, o, c, wc, stack, 
                            res, r, n, hs, j >>

e3(self) == /\ pc[self] = "e3"
            /\ mon' = Mon(mon, (<<"en", self, 0, x[self]>>))
            /\ pc' = [pc EXCEPT ![self] = "e4"]
            /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

e4(self) == /\ pc[self] = "e4"
            /\ IF j[self].c # 0 /\ Mut # "consume-first"
                  THEN /\ cons' = [cons EXCEPT ![j[self].c].res = cons[j[self].c].res - 1]
                  ELSE /\ TRUE
                       /\ cons' = cons
            /\ pc' = [pc EXCEPT ![self] = "e5"]
            /\ UNCHANGED << mon, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

e5(self) == /\ pc[self] = "e5"
            /\ mon' = Mon(mon, (<<"de", self, 0, j[self].o>>))
            /\ pc' = [pc EXCEPT ![self] = "e1"]
            /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, over, i, o, c, 
                            wc, stack, res, r, n, hs, j, x >>

exec(self) == e1(self) \/ e2(self) \/ e3(self) \/ e4(self) \/ e5(self)

k1 == /\ pc[100] = "k1"
      /\ /\ \A p \in Clients : pc[p] = "Done"
         /\ \A p \in Clients : pc[Helper(p)] = "h1"
         /\ \A p \in Executors : pc[p] = "e1"
         /\ jobs = {} /\ notes = {}
      /\ over' = TRUE
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << cons, cur, jobs, notes, no, nx, nc, i, o, c, wc, stack, 
                      res, r, n, hs, j, x >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == silence
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in {Helper(k) : k \in Clients}: helper(self))
           \/ (\E self \in Executors: exec(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Sane == \A k \in DOMAIN cons : cons[k].res >= 0
(* nothing is kept alive for good: a chain is satisfied in order *)
Ordered == \A k \in DOMAIN cons : cons[k].pre < k
Perms == Permutations(Executors)
=============================================================================
