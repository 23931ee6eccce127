SPECIFICATION Spec
\* quick
\* checks: C08 C09
\* mutants: 
CONSTANTS Script <- Script5  Interval = 1  Dur = 1  Busy = 0  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
