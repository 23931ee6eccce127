SPECIFICATION Spec
\* quick
\* checks: C18 C21
\* mutants: low-first
CONSTANTS
    p1 = p1  p2 = p2
    Script <- ScriptD  Prio <- PrioD
    Grouped = {}  Waits = {}  Long = {1}
    MaxT = 2  Slots = {p1, p2}  Expiries = 0  Mut = "none"
SYMMETRY Perms
INVARIANTS Holds Counts
CHECK_DEADLOCK TRUE
