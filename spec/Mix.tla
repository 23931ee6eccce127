-------------------------------- MODULE Mix --------------------------------
(* C20: combining objects of different backends.

   events  mx c kind implType queueType o a call combining two objects begins
           mt c                           the given implementation is used by it
           mxr c res                      0 accepted, 1 logic_error, 2 other
   kinds   0 timer(impl, q), 1 socket_notifier(impl, q), 2 the constructors
           which choose the implementation, 3 group::async, 4 group::notify
   o is the operation to be submitted or -1. A call which has to be refused
   has no effect: its operation never runs. *)
EXTENDS Waitable

Naive == 0
Mismatch(r) == r.it # r.qt /\ ~(r.kind \in {3, 4} /\ r.it = Naive)

MixErrs(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "mt" -> If(Has(s.mx, e[4]) /\ Mismatch(s.mx[e[4]]), {<<"C20", "touched">>})
      [] nm = "mxr" ->
            LET r == s.mx[e[4]] IN
            CASE e[5] = 0 -> If(Mismatch(r), {<<"C20", "accepted">>})
              [] e[5] = 1 -> If(~Mismatch(r), {<<"C20", "refused">>})
              [] OTHER -> {<<"C20", "exception">>}
      [] nm = "quiet" -> If(s.mx # Empty, {<<"C20", "stuck">>})
      [] OTHER -> {}

MixUpd(s, e) ==
    LET nm == Name(e) IN
    CASE nm = "mx" -> [s EXCEPT !.mx = Put(@, e[4], [kind |-> e[5], it |-> e[6], qt |-> e[7]]),
                     !.op = IF /\ Has(@, e[8])
                               /\ Mismatch([kind |-> e[5], it |-> e[6], qt |-> e[7]])
                            THEN [@ EXCEPT ![e[8]].ph = Refused] ELSE @]
      [] nm = "mxr" -> [s EXCEPT !.mx = Del(@, {e[4]})]
      [] OTHER -> s
=============================================================================
