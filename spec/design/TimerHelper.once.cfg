SPECIFICATION Spec
\* checks: C08 C09
\* mutants: again no-delay
CONSTANTS Script <- Script4  Interval = 0  Dur = 1  Busy = 0  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
