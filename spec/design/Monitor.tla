------------------------------ MODULE Monitor ------------------------------
(* The contract as a monitor of a design: designs emit the events of the
   contract and must never break one of its guards.                          *)
EXTENDS Contract

MonInit(evs) ==   \* after the declarations evs
    LET RECURSIVE Go(_, _)
        Go(s, i) == IF i > Len(evs) THEN s ELSE Go(Upd(s, evs[i]), i + 1)
    IN [s |-> Go(S0, 1), bad |-> {}]
Mon(m, e) == [s |-> Upd(m.s, e), bad |-> m.bad \cup Errs(m.s, e)]
Mon2(m, e, f) == Mon(Mon(m, e), f)
Mon3(m, e, f, g) == Mon(Mon2(m, e, f), g)
Fatal(m, what) == [m EXCEPT !.bad = @ \cup {<<"fatal", what>>}]
(* what a program hears when nothing can happen any more *)
QuietBad(m, now) == Errs(m.s, <<"idle", 0, now>>)
                    \cup Errs(Upd(m.s, <<"idle", 0, now>>), <<"quiet", 0, now, 1>>)
=============================================================================
