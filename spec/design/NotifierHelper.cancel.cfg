SPECIFICATION Spec
\* quick
\* checks: C10 C09
\* mutants: cancel-no-wait
CONSTANTS Script <- Script3  Dur = 1  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
