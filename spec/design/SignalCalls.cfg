SPECIFICATION Spec
\* checks: C11 C13
\* mutants: only-removed no-wait
CONSTANTS Script <- Script1  Mode = "single"  Execs = {11}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
