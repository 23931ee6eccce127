SPECIFICATION Spec
\* checks: C10
CONSTANTS Script <- Script1  Dur = 1  Within = "sus"  Helpers = {11, 12, 13}  Mut = "none"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
