SPECIFICATION Spec
\* checks: C11 C13
\* mutants: only-removed
CONSTANTS Script <- Script3  Mode = "batch"  Execs = {11}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
