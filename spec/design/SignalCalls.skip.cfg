SPECIFICATION Spec
\* checks: C13 C12
\* mutants: skip-keeps-bit no-ticket
CONSTANTS Script <- Script2  Mode = "batch"  Execs = {11}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
