SPECIFICATION Spec
\* quick
\* checks: C15 C05
\* mutants: no-takeover
CONSTANTS Script <- Script2  Workers = {}  Parallel = FALSE  Mut = "none"  defaultInitValue = 0
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
