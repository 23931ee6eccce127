SPECIFICATION Spec
\* checks: C07
\* mutants: no-notify-wait
CONSTANTS p1 = p1
CONSTANTS Script <- ScriptN  Executors = {p1}  Mut = "none"
INVARIANTS Holds Sane Ordered
CHECK_DEADLOCK TRUE
