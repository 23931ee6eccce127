SPECIFICATION Spec
\* quick
\* checks: C13 C11 C22
\* mutants: no-wait
CONSTANTS Script <- Script4  Mode = "single"  Execs = {11, 12}  Mut = "none"
INVARIANTS Holds Sane
CHECK_DEADLOCK TRUE
