------------------------------ MODULE Contract ------------------------------
(* The contract of xdispatch2: the composition of all components.            *)
EXTENDS Custom

Errs(s, e) == ExecErrs(s, e) \cup GroupErrs(s, e) \cup PoolErrs(s, e)
              \cup TimerErrs(s, e) \cup NotifierErrs(s, e) \cup SignalErrs(s, e)
              \cup BarrierErrs(s, e) \cup WaitableErrs(s, e)
              \cup MixErrs(s, e) \cup CustomErrs(s, e)

(* ExecUpd comes last: the others read the execution which ends *)
Upd(s, e) ==
    ExecUpd(GroupUpd(PoolUpd(TimerUpd(NotifierUpd(SignalUpd(BarrierUpd(MixUpd(WaitableUpd(CustomUpd(
        [s EXCEPT !.n = @ + 1], e), e), e), e), e), e), e), e), e), e)
=============================================================================
