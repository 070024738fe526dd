SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2}
  MaxPuts = 2
  MaxOps = 2
  NotifyAlways = FALSE
PROPERTIES CloseReleases Completes
CHECK_DEADLOCK FALSE
