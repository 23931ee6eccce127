SPECIFICATION Spec
\* quick
\* checks: C08 C09
\* mutants: no-cookie
CONSTANTS Script <- Script6  Interval = 3  Dur = 0  Busy = 0  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds Sane
CONSTRAINT Bound
CHECK_DEADLOCK TRUE
