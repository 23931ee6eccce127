SPECIFICATION Spec
\* quick
\* checks: C06 C19
\* mutants: no-chain no-recheck
CONSTANTS p1 = p1
CONSTANTS Script <- ScriptQ  Executors = {p1}  Mut = "none"
INVARIANTS Holds Sane Ordered
CHECK_DEADLOCK TRUE
