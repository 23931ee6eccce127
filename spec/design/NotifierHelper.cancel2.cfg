SPECIFICATION Spec
\* quick
\* checks: C10 C09
\* mutants: no-disable
CONSTANTS Script <- Script8  Dur = 1  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
