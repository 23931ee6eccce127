SPECIFICATION Spec
\* checks: C15 C04
\* mutants: no-turns active-suffices
CONSTANTS Script <- Script3  Workers = {11}  Parallel = TRUE  Mut = "none"  defaultInitValue = 0
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
