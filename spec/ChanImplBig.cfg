SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2,3,4}
  MaxPuts = 3
  MaxOps = 2
  NotifyAlways = FALSE
INVARIANT NoStrandedWaiter
PROPERTY Refines
CHECK_DEADLOCK FALSE
