SPECIFICATION Spec
\* checks: C01 C16 C19
\* mutants: no-schedule no-chain
CONSTANTS
    p1 = p1  p2 = p2  p3 = p3
    Script <- ScriptA  Prio <- PrioA
    Grouped = {}  Waits = {}  Long = {1}
    MaxT = 2  Slots = {p1, p2, p3}  Expiries = 0  Mut = "none"
SYMMETRY Perms
INVARIANTS Holds Counts
CHECK_DEADLOCK TRUE
