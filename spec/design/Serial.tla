------------------------------- MODULE Serial -------------------------------
(* naive_operation_queue: a serial queue drained by the threads of a pool.
   Clients submit, drop their handles; the last one detaches the queue, which
   then ends on the manager's thread.

   Mut selects a deviation the contract has to notice ("none": the design).   *)
EXTENDS Monitor
CONSTANTS Clients, PerClient, Workers, MaxDrain, Mut

(* --algorithm Serial
variables
    mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>> >>),
    jobs = <<>>, lock = 0, active = FALSE, attached = TRUE, canNotify = TRUE,
    pool = 0, refs = Cardinality(Clients), ended = FALSE, alive = TRUE,
    no = 0, nx = 0, over = FALSE;
define
    Detach == 1000
    Touch(m) == IF alive THEN m ELSE Fatal(m, "use after free")
end define;
macro ev(e) begin mon := Mon(mon, e) end macro;
macro notify() begin
    if canNotify then pool := pool + 1 end if;
end macro;

process client \in Clients
variables left = PerClient, o = 0;
begin
c1: while left > 0 do
        no := no + 1; o := no; ev(<<"sub", self, 0, o, 0, -1>>);
c2:     await lock = 0;
        if (jobs = <<>> /\ attached) \/ Mut = "always-notify" then notify() end if;
        jobs := Append(jobs, o);
        if Mut = "lost-wakeup" then attached := FALSE end if;
c3:     ev(<<"subr", self, 0, o>>);
        left := left - 1;
    end while;
c4: refs := refs - 1;
    if refs = 0 then
c5:     await lock = 0;
        if jobs = <<>> \/ Mut = "detach-now" then ended := TRUE
        else jobs := Append(jobs, Detach) end if;
        attached := FALSE;
    end if;
end process;

process worker \in Workers
variables job = 0, remaining = 0, x = 0;
begin
w1: while TRUE do
        await pool > 0 \/ over;
        if over then goto Done else pool := pool - 1 end if;
w2:     await lock = 0; lock := self; mon := Touch(mon);
        active := TRUE;
        remaining := IF Len(jobs) < MaxDrain THEN Len(jobs) ELSE MaxDrain;
w3:     while remaining > 0 do
            job := Head(jobs);
            lock := 0;
            if Mut = "early-pop" then jobs := Tail(jobs) end if;
w4:         if job = Detach then ended := TRUE
            else
                nx := nx + 1; x := nx;
                ev(<<"st", self, 0, x, 0, 1, -1, "op", job, 0>>);
w5:             mon := Mon2(mon, <<"en", self, 0, x>>, <<"de", self, 0, job>>);
            end if;
w6:         await lock = 0; lock := self; mon := Touch(mon);
            if Mut # "early-pop" then jobs := Tail(jobs) end if;
            remaining := remaining - 1;
        end while;
w7:     if jobs # <<>> /\ Mut # "no-yield-notify" then notify() end if;
        active := FALSE; lock := 0; mon := Touch(mon);
    end while;
end process;

process manager = 99
begin
m1: await ended;
m2: await lock = 0;
    canNotify := FALSE;
    if active /\ Mut # "no-drain-wait" then goto m2 end if;
m3: alive := FALSE;
end process;

(* nothing can happen any more *)
process silence = 100
begin
k1: await /\ \A p \in Clients \cup {99} : pc[p] = "Done"
          /\ \A p \in Workers : pc[p] = "w1"
          /\ pool = 0;
    over := TRUE;
    mon := [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)];
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, mon, jobs, lock, active, attached, canNotify, pool, refs, ended, 
          alive, no, nx, over

(* define statement *)
Detach == 1000
Touch(m) == IF alive THEN m ELSE Fatal(m, "use after free")

VARIABLES left, o, job, remaining, x

vars == << pc, mon, jobs, lock, active, attached, canNotify, pool, refs, 
           ended, alive, no, nx, over, left, o, job, remaining, x >>

ProcSet == (Clients) \cup (Workers) \cup {99} \cup {100}

Init == (* Global variables *)
        /\ mon = MonInit(<< <<"cf", 0, 0, 2, 0>>, <<"dq", 0, 0, 0, "serial", 3, -1>> >>)
        /\ jobs = <<>>
        /\ lock = 0
        /\ active = FALSE
        /\ attached = TRUE
        /\ canNotify = TRUE
        /\ pool = 0
        /\ refs = Cardinality(Clients)
        /\ ended = FALSE
        /\ alive = TRUE
        /\ no = 0
        /\ nx = 0
        /\ over = FALSE
        (* Process client *)
        /\ left = [self \in Clients |-> PerClient]
        /\ o = [self \in Clients |-> 0]
        (* Process worker *)
        /\ job = [self \in Workers |-> 0]
        /\ remaining = [self \in Workers |-> 0]
        /\ x = [self \in Workers |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "c1"
                                        [] self \in Workers -> "w1"
                                        [] self = 99 -> "m1"
                                        [] self = 100 -> "k1"]

c1(self) == /\ pc[self] = "c1"
            /\ IF left[self] > 0
                  THEN /\ no' = no + 1
                       /\ o' = [o EXCEPT ![self] = no']
                       /\ mon' = Mon(mon, (<<"sub", self, 0, o'[self], 0, -1>>))
                       /\ pc' = [pc EXCEPT ![self] = "c2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "c4"]
                       /\ UNCHANGED << mon, no, o >>
            /\ UNCHANGED << jobs, lock, active, attached, canNotify, pool, 
                            refs, ended, alive, nx, over, left, job, remaining, 
                            x >>

c2(self) == /\ pc[self] = "c2"
            /\ lock = 0
            /\ IF (jobs = <<>> /\ attached) \/ Mut = "always-notify"
                  THEN /\ IF canNotify
                             THEN /\ pool' = pool + 1
                             ELSE /\ TRUE
                                  /\ pool' = pool
                  ELSE /\ TRUE
                       /\ pool' = pool
            /\ jobs' = Append(jobs, o[self])
            /\ IF Mut = "lost-wakeup"
                  THEN /\ attached' = FALSE
                  ELSE /\ TRUE
                       /\ UNCHANGED attached
            /\ pc' = [pc EXCEPT ![self] = "c3"]
            /\ UNCHANGED << mon, lock, active, canNotify, refs, ended, alive, 
                            no, nx, over, left, o, job, remaining, x >>

c3(self) == /\ pc[self] = "c3"
            /\ mon' = Mon(mon, (<<"subr", self, 0, o[self]>>))
            /\ left' = [left EXCEPT ![self] = left[self] - 1]
            /\ pc' = [pc EXCEPT ![self] = "c1"]
            /\ UNCHANGED << jobs, lock, active, attached, canNotify, pool, 
                            refs, ended, alive, no, nx, over, o, job, 
                            remaining, x >>

c4(self) == /\ pc[self] = "c4"
            /\ refs' = refs - 1
            /\ IF refs' = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "c5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << mon, jobs, lock, active, attached, canNotify, pool, 
                            ended, alive, no, nx, over, left, o, job, 
                            remaining, x >>

c5(self) == /\ pc[self] = "c5"
            /\ lock = 0
            /\ IF jobs = <<>> \/ Mut = "detach-now"
                  THEN /\ ended' = TRUE
                       /\ jobs' = jobs
                  ELSE /\ jobs' = Append(jobs, Detach)
                       /\ ended' = ended
            /\ attached' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << mon, lock, active, canNotify, pool, refs, alive, 
                            no, nx, over, left, o, job, remaining, x >>

client(self) == c1(self) \/ c2(self) \/ c3(self) \/ c4(self) \/ c5(self)

w1(self) == /\ pc[self] = "w1"
            /\ pool > 0 \/ over
            /\ IF over
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ pool' = pool
                  ELSE /\ pool' = pool - 1
                       /\ pc' = [pc EXCEPT ![self] = "w2"]
            /\ UNCHANGED << mon, jobs, lock, active, attached, canNotify, refs, 
                            ended, alive, no, nx, over, left, o, job, 
                            remaining, x >>

w2(self) == /\ pc[self] = "w2"
            /\ lock = 0
            /\ lock' = self
            /\ mon' = Touch(mon)
            /\ active' = TRUE
            /\ remaining' = [remaining EXCEPT ![self] = IF Len(jobs) < MaxDrain THEN Len(jobs) ELSE MaxDrain]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << jobs, attached, canNotify, pool, refs, ended, 
                            alive, no, nx, over, left, o, job, x >>

w3(self) == /\ pc[self] = "w3"
            /\ IF remaining[self] > 0
                  THEN /\ job' = [job EXCEPT ![self] = Head(jobs)]
                       /\ lock' = 0
                       /\ IF Mut = "early-pop"
                             THEN /\ jobs' = Tail(jobs)
                             ELSE /\ TRUE
                                  /\ jobs' = jobs
                       /\ pc' = [pc EXCEPT ![self] = "w4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w7"]
                       /\ UNCHANGED << jobs, lock, job >>
            /\ UNCHANGED << mon, active, attached, canNotify, pool, refs, 
                            ended, alive, no, nx, over, left, o, remaining, x >>

w4(self) == /\ pc[self] = "w4"
            /\ IF job[self] = Detach
                  THEN /\ ended' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "w6"]
                       /\ UNCHANGED << mon, nx, x >>
                  ELSE /\ nx' = nx + 1
                       /\ x' = [x EXCEPT ![self] = nx']
                       /\ mon' = Mon(mon, (<<"st", self, 0, x'[self], 0, 1, -1, "op", job[self], 0>>))
                       /\ pc' = [pc EXCEPT ![self] = "w5"]
                       /\ ended' = ended
            /\ UNCHANGED << jobs, lock, active, attached, canNotify, pool, 
                            refs, alive, no, over, left, o, job, remaining >>

w5(self) == /\ pc[self] = "w5"
            /\ mon' = Mon2(mon, <<"en", self, 0, x[self]>>, <<"de", self, 0, job[self]>>)
            /\ pc' = [pc EXCEPT ![self] = "w6"]
            /\ UNCHANGED << jobs, lock, active, attached, canNotify, pool, 
                            refs, ended, alive, no, nx, over, left, o, job, 
                            remaining, x >>

w6(self) == /\ pc[self] = "w6"
            /\ lock = 0
            /\ lock' = self
            /\ mon' = Touch(mon)
            /\ IF Mut # "early-pop"
                  THEN /\ jobs' = Tail(jobs)
                  ELSE /\ TRUE
                       /\ jobs' = jobs
            /\ remaining' = [remaining EXCEPT ![self] = remaining[self] - 1]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << active, attached, canNotify, pool, refs, ended, 
                            alive, no, nx, over, left, o, job, x >>

w7(self) == /\ pc[self] = "w7"
            /\ IF jobs # <<>> /\ Mut # "no-yield-notify"
                  THEN /\ IF canNotify
                             THEN /\ pool' = pool + 1
                             ELSE /\ TRUE
                                  /\ pool' = pool
                  ELSE /\ TRUE
                       /\ pool' = pool
            /\ active' = FALSE
            /\ lock' = 0
            /\ mon' = Touch(mon)
            /\ pc' = [pc EXCEPT ![self] = "w1"]
            /\ UNCHANGED << jobs, attached, canNotify, refs, ended, alive, no, 
                            nx, over, left, o, job, remaining, x >>

worker(self) == w1(self) \/ w2(self) \/ w3(self) \/ w4(self) \/ w5(self)
                   \/ w6(self) \/ w7(self)

m1 == /\ pc[99] = "m1"
      /\ ended
      /\ pc' = [pc EXCEPT ![99] = "m2"]
      /\ UNCHANGED << mon, jobs, lock, active, attached, canNotify, pool, refs, 
                      ended, alive, no, nx, over, left, o, job, remaining, x >>

m2 == /\ pc[99] = "m2"
      /\ lock = 0
      /\ canNotify' = FALSE
      /\ IF active /\ Mut # "no-drain-wait"
            THEN /\ pc' = [pc EXCEPT ![99] = "m2"]
            ELSE /\ pc' = [pc EXCEPT ![99] = "m3"]
      /\ UNCHANGED << mon, jobs, lock, active, attached, pool, refs, ended, 
                      alive, no, nx, over, left, o, job, remaining, x >>

m3 == /\ pc[99] = "m3"
      /\ alive' = FALSE
      /\ pc' = [pc EXCEPT ![99] = "Done"]
      /\ UNCHANGED << mon, jobs, lock, active, attached, canNotify, pool, refs, 
                      ended, no, nx, over, left, o, job, remaining, x >>

manager == m1 \/ m2 \/ m3

k1 == /\ pc[100] = "k1"
      /\ /\ \A p \in Clients \cup {99} : pc[p] = "Done"
         /\ \A p \in Workers : pc[p] = "w1"
         /\ pool = 0
      /\ over' = TRUE
      /\ mon' = [mon EXCEPT !.bad = @ \cup QuietBad(mon, 0)]
      /\ pc' = [pc EXCEPT ![100] = "Done"]
      /\ UNCHANGED << jobs, lock, active, attached, canNotify, pool, refs, 
                      ended, alive, no, nx, left, o, job, remaining, x >>

silence == k1

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == manager \/ silence
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in Workers: worker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Holds == mon.bad = {}
Perms == Permutations(Workers)
=============================================================================
