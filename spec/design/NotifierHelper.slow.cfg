SPECIFICATION Spec
\* quick
\* checks: C10
\* mutants: timeout-ends
CONSTANTS Script <- Script7  Dur = 1  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
