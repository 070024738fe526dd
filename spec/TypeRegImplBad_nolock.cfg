SPECIFICATION Spec
CONSTANTS
  Progs <- P_A
  MainRefs = 1
  WRefs = 0
  WaitFirst = TRUE
  Types = {"1","2"}
  Locked = FALSE
  Split = FALSE
  Owned = TRUE
INVARIANTS NothingBad NoStuck
CHECK_DEADLOCK FALSE
