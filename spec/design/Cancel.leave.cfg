SPECIFICATION Spec
\* quick
\* checks: C09 C13
\* mutants: no-first-complete no-wait
CONSTANTS Callers = {1}  Leavers = {3, 4}  Inner = {}  Mut = "none"  defaultInitValue = 0
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
