SPECIFICATION Spec
\* checks: C14
\* mutants: late-true
CONSTANTS Script <- Script2  Completers = {11, 12}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK TRUE
