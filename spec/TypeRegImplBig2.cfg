SPECIFICATION Spec
CONSTANTS
  Progs <- P_Big2
  MainRefs = 1
  WRefs = 3
  WaitFirst = FALSE
  Types = {"1","2","3"}
  Locked = TRUE
  Split = FALSE
  Owned = TRUE
INVARIANTS NothingBad NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
