SPECIFICATION Spec
CONSTANTS
  Progs <- P_A
  MainRefs = 1
  WRefs = 0
  WaitFirst = TRUE
  Types = {"1","2"}
  Locked = TRUE
  Split = FALSE
  Owned = FALSE
INVARIANTS NothingBad NoStuck
CHECK_DEADLOCK FALSE
