SPECIFICATION MCLive
CONSTANTS NFib = 1 NSock = 1 MaxBytes = 2 MaxOps = 5 Sim = FALSE Depth = 0
 Ops = {"r", "rr", "w", "rblk", "y", "q"}
CHECK_DEADLOCK FALSE
INVARIANTS Conserved OnePlace OneWaiter Suspended
PROPERTIES ReaderRuns WriterRuns
