SPECIFICATION Spec
CONSTANTS Writes <- W2
 PeerWrites <- W1
 Reads <- R3
 Closers = {11}
 Lookers = {21}
 Cap = 2
 Faults = 1
 MayReset = TRUE
 Variant = "eintr"
INVARIANTS NothingBad NotStuck NoLeak
CHECK_DEADLOCK FALSE
