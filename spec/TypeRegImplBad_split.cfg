SPECIFICATION Spec
CONSTANTS
  Progs <- P_B
  MainRefs = 0
  WRefs = 2
  WaitFirst = FALSE
  Types = {"1","2"}
  Locked = TRUE
  Split = TRUE
  Owned = TRUE
INVARIANTS NothingBad NoStuck
CHECK_DEADLOCK FALSE
