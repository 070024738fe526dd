SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2}
  MaxOps = 2
  MaxLen = 2
  NotifyOnlyEmpty = TRUE
PROPERTY CloseReleases
CHECK_DEADLOCK FALSE
