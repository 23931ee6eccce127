SPECIFICATION Spec
\* checks: C12
\* mutants: clear-late
CONSTANTS Script <- Script5  Mode = "batch"  Execs = {11}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
