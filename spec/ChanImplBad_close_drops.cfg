SPECIFICATION Spec
CONSTANTS Bug = "close_drops"
 
  Threads = {1,2,3}
  MaxPuts = 2
  MaxOps = 2
  NotifyAlways = FALSE
INVARIANT NoStrandedWaiter
PROPERTY Refines
CHECK_DEADLOCK FALSE
