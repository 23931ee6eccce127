SPECIFICATION Spec
\* quick
\* checks: C10
CONSTANTS Script <- Script4  Dur = 1  Within = "no"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
