------------------------------- MODULE Base -------------------------------
(* Vocabulary shared by all components of the xdispatch2 contract.

   The contract is a labelled transition system. Labels are the observable
   events of a program that uses the library: calls and returns of the API,
   begin and end of operations and handlers, destruction of operations, and
   two kinds of silence ("idle": nothing can run until time passes, "quiet":
   the program is over and everything had its chance).

   An event is a sequence  <<name, thread, time, args...>>.

   Every component contributes
      XErrs(s, e)  the set of guards which event e breaks in state s, each a
                   pair <<property, what>>; the transition is enabled iff the
                   union over all components is empty
      XUpd(s, e)   the effect of e on the component's own variables        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == (k :> v) @@ f
Del(f, K)    == [x \in (DOMAIN f) \ K |-> f[x]]
Has(f, k)    == k \in DOMAIN f
Max2(a, b)   == IF a >= b THEN a ELSE b
MinOf(S)     == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S)     == CHOOSE x \in S : \A y \in S : x >= y
If(c, tags)  == IF c THEN tags ELSE {}
Empty        == << >>          \* the function with empty domain

Name(e) == e[1]
Tid(e)  == e[2]
Now(e)  == e[3]

(* operation phases *)
Submitting == 0
Queued     == 1
Running    == 2
Done       == 3
Refused    == 4

S0 == [ n    |-> 0,        \* events so far
        base |-> 0,        \* threads of the library pool
        extra |-> 0,       \* most threads ever blocked in the library at a time
        jump |-> 0,        \* 1: time may pass although threads could run
        q    |-> Empty,    \* queue -> [k: kind, p: priority, a: pool/inner/thread]
        pool |-> Empty,    \* custom pool -> number of workers
        exec |-> FALSE,    \* some thread is inside exec()
        op   |-> Empty,    \* operation -> record, until done and destroyed
        run  |-> Empty,    \* execution -> record, while running
        busy |-> 0,        \* time of the last end of an execution
        ap   |-> Empty,    \* apply call -> record
        pd   |-> [gone |-> {}, xq |-> {}, xp |-> {}, aft |-> {}],
        gw   |-> Empty,    \* pending group::wait calls
        tm   |-> Empty,    \* timers
        tcall|-> Empty,    \* pending timer/notifier cancel and suspend calls
        nt   |-> Empty,    \* socket notifiers
        sock |-> Empty,    \* sockets
        sig  |-> Empty,    \* signal -> [g: group, gone]
        cn   |-> Empty,    \* connections
        em   |-> Empty,    \* emissions
        pend |-> {},       \* single_updates calls due: [m, c, must]
        scall|-> Empty,    \* pending disconnect/skip/destroy calls
        b    |-> Empty,    \* barriers
        bw   |-> Empty,    \* pending barrier waits
        w    |-> Empty,    \* pending waits on waitable queues
        tw   |-> Empty,    \* operation -> first submission of the same object
        wo   |-> Empty,    \* waitable queues: what may be listed without the inner queue
        twr  |-> Empty,    \* first submission -> number of those made
        wcr  |-> Empty,    \* waitable queue -> [e: completions, w: consumed]
        thr  |-> Empty,    \* library thread -> [n: event, q: queue] of last end
        qst  |-> {},       \* Qt threads which were started
        qpl  |-> Empty,    \* Qt pool -> number of threads
        qsub |-> {},       \* being submitted to a Qt pool, all threads busy so far
        qful |-> {},       \* submitted to a Qt pool while all threads were busy
        qo   |-> {},       \* connections bound to a QObject
        mx   |-> Empty,    \* pending calls which combine backends
        blk  |-> Empty,    \* <<thread, custom pool>> -> times it was told of a blocked thread
        ub   |-> {} ]      \* threads blocked by the program itself

(* queues *)
SerialKinds == {"serial", "main", "cserial", "waitable", "wserial", "qserial"}
RECURSIVE IsSerial(_, _)
IsSerial(s, q) == IF s.q[q].k = "foreign" THEN IsSerial(s, s.q[q].a)
                  ELSE s.q[q].k \in SerialKinds
LibKinds == {"global", "serial"}

RunningOn(s, q) == {x \in DOMAIN s.run : s.run[x].q = q}
RunningAs(s, k, a) == {x \in DOMAIN s.run : s.run[x].k = k /\ s.run[x].a = a}

RunsOf(s, t) == {x \in DOMAIN s.run : s.run[x].tid = t}
(* where the innermost execution of a thread takes place, 0 without any *)
InnerWhere(s, t) ==
    LET R == RunsOf(s, t) IN
    IF R = {} THEN 0
    ELSE s.run[CHOOSE x \in R : \A y \in R : s.run[y].n <= s.run[x].n].where

RECURSIVE Available(_, _)
(* the queue has threads to run on, provided nothing else occupies them *)
Available(s, q) ==
    LET d == s.q[q] IN
    CASE d.k = "main" -> s.exec
      [] d.k \in {"cserial", "cpar"} -> Has(s.pool, d.a) /\ s.pool[d.a] > 0
      [] d.k \in {"waitable", "foreign"} -> Available(s, d.a)
      [] d.k = "qserial" -> d.a \in s.qst
      [] OTHER -> TRUE

(* a pool without threads of its own runs only what others take out of it *)
Unserved(s, q) == /\ s.q[q].k \in {"cserial", "cpar"}
                  /\ Has(s.pool, s.q[q].a) /\ s.pool[s.q[q].a] = 0

(* further properties which speak about queues of that kind *)
Also(s, q, what) ==
    LET k == s.q[q].k IN
    CASE k \in {"waitable", "wserial"} -> {<<"C15", what>>}
      [] k \in {"qserial", "qpar"} -> {<<"C21", what>>}
      [] OTHER -> {}

(* Executions of an operation which was submitted repeatedly cannot be told
   apart: -(1000 * n + first) stands for "at least n of them are done"     *)
OpDone(s, o) ==
    IF o < 0
    THEN LET n == (-o) \div 1000  f == (-o) % 1000
         IN Cardinality({t \in DOMAIN s.tw : s.tw[t] = f
                                  /\ (IF Has(s.op, t) THEN s.op[t].ph >= Done ELSE TRUE)}) >= n
    ELSE IF Has(s.op, o) THEN s.op[o].ph >= Done ELSE TRUE
(* the same set of operations, those submitted repeatedly only by number *)
Counted(s, O) == {o \in O : ~Has(s.tw, o)}
                 \cup {-(1000 * s.twr[f] + f) : f \in {s.tw[o] : o \in {t \in O : Has(s.tw, t)}}}
=============================================================================
