SPECIFICATION Spec
\* checks: C14
\* mutants: replace
CONSTANTS Script <- Script3  Completers = {11}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK TRUE
