SPECIFICATION MCSpec
CONSTANTS NFib = 3 NSock = 1 MaxBytes = 12 MaxOps = 40 Sim = TRUE Depth = 90
 Ops = {"r", "rr", "w", "rblk", "wblk", "y", "q"}
CHECK_DEADLOCK FALSE
INVARIANTS Conserved OnePlace OneWaiter Suspended
CONSTRAINT EmitSim
