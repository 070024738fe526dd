SPECIFICATION Spec
CONSTANTS MaxMsgs = 4 Big = TRUE
INVARIANTS Contained ResolvedOnce Typed
CHECK_DEADLOCK FALSE
