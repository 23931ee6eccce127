SPECIFICATION Spec
\* checks: C08 C09
\* mutants: cancel-no-wait no-delay
CONSTANTS Script <- Script1  Interval = 1  Dur = 2  Busy = 0  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
