SPECIFICATION Spec
\* checks: C13
\* mutants: no-wait
CONSTANTS Script <- Script6  Mode = "single"  Execs = {11, 12}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
