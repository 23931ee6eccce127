SPECIFICATION Spec
\* quick
\* checks: C01 C02 C03
\* mutants: early-pop always-notify lost-wakeup detach-now no-yield-notify no-drain-wait
CONSTANTS p1 = p1  p2 = p2
CONSTANTS Clients = {1, 2}  PerClient = 1  Workers = {p1, p2}  MaxDrain = 1  Mut = "none"
SYMMETRY Perms
INVARIANT Holds
CHECK_DEADLOCK TRUE
