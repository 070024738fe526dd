SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2}
  MaxOps = 2
PROPERTIES Delivered TimedEnds
CHECK_DEADLOCK FALSE
