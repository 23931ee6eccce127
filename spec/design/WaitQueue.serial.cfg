SPECIFICATION Spec
\* quick
\* checks: C15
\* mutants: no-schedule all-once
CONSTANTS Script <- Script4  Workers = {11}  Parallel = FALSE  Mut = "none"  defaultInitValue = 0
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
