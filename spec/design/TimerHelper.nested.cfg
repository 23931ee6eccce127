SPECIFICATION Spec
\* checks: C08 C09
\* mutants: no-delay
CONSTANTS Script <- Script3  Interval = 1  Dur = 1  Busy = 0  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
