SPECIFICATION Spec
\* checks: C13
\* mutants: no-ticket
CONSTANTS Script <- Script2  Mode = "single"  Execs = {11}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
