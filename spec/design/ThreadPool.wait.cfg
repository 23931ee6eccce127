SPECIFICATION Spec
\* checks: C06 C16 C23
\* mutants: no-lend
CONSTANTS
    p1 = p1  p2 = p2  p3 = p3  p4 = p4
    Script <- ScriptB  Prio <- PrioB
    Grouped = {1}  Waits = {2, 3}  Long = {}
    MaxT = 2  Slots = {p1, p2, p3, p4}  Expiries = 0  Mut = "none"
SYMMETRY Perms
INVARIANTS Holds Counts
CHECK_DEADLOCK TRUE
