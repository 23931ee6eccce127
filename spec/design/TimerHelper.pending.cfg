SPECIFICATION Spec
\* checks: C08 C09
\* mutants: no-pending
CONSTANTS Script <- Script7  Interval = 2  Dur = 0  Busy = 3  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
