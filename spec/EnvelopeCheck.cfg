SPECIFICATION Spec
CONSTANTS MaxMsgs = 3 Big = FALSE
INVARIANTS Contained ResolvedOnce Typed
CHECK_DEADLOCK FALSE
