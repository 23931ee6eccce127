SPECIFICATION Spec
\* checks: C06
\* mutants: no-chain no-retry no-recheck consume-first no-own-release
CONSTANTS p1 = p1
CONSTANTS Script <- Script1  Executors = {p1}  Mut = "none"
INVARIANTS Holds Sane Ordered
CHECK_DEADLOCK TRUE
