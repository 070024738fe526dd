SPECIFICATION Spec
CONSTANTS Writes <- W3
 PeerWrites <- W2
 Reads <- R5
 Closers = {11, 12}
 Lookers = {21}
 Cap = 3
 Faults = 2
 MayReset = TRUE
 Variant = "code"
INVARIANTS NothingBad NotStuck NoLeak
CHECK_DEADLOCK FALSE
