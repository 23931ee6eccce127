SPECIFICATION Spec
\* quick
\* checks: C14
\* mutants: weak wake-none no-second-look asked-is-open replace
CONSTANTS Script <- Script1  Completers = {11}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK TRUE
