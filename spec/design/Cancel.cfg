SPECIFICATION Spec
\* checks: C09 C13
\* mutants: inner-waits no-wait enter-late no-last-complete
CONSTANTS Callers = {1, 2}  Leavers = {3}  Inner = {1}  Mut = "none"  defaultInitValue = 0
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
