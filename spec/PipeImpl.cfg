SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2,3}
  MaxOps = 1
  MaxLen = 2
  NotifyOnlyEmpty = TRUE
INVARIANTS NoStrandedReader InOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE
