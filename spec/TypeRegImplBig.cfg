SPECIFICATION Spec
CONSTANTS
  Progs <- P_Big
  MainRefs = 1
  WRefs = 0
  WaitFirst = TRUE
  Types = {"1","2","3"}
  Locked = TRUE
  Split = FALSE
  Owned = TRUE
INVARIANTS NothingBad NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
