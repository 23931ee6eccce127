-------------------------------- MODULE Trace --------------------------------
(* Conformance: walks every recorded history of the implementation through the
   contract and reports each event whose guards are broken.                   *)
EXTENDS Contract, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.XD_TRACES)

VARIABLES t, l, st
vars == <<t, l, st>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ st = S0
Next ==
    /\ l <= Len(Traces[t].ev)
    /\ LET e == Traces[t].ev[l] IN
       IF Name(e) = "fatal"
       THEN /\ PrintT(<<"REJECT", t, l, {<<"fatal", e[4]>>}>>)
            /\ st' = st
       ELSE LET er == Errs(st, e) IN
            /\ IF er = {} THEN TRUE ELSE PrintT(<<"REJECT", t, l, er>>)
            /\ st' = Upd(st, e)
    /\ l' = l + 1
    /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
