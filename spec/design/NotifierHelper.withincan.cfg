SPECIFICATION Spec
\* checks: C10 C09
CONSTANTS Script <- Script1  Dur = 1  Within = "can"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
