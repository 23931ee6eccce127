SPECIFICATION Spec
\* checks: C10
\* mutants: no-cookie
CONSTANTS Script <- Script5  Dur = 1  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
