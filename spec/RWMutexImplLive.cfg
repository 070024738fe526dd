SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2,3}
  MaxOps = 1
PROPERTY EveryoneFinishes
CHECK_DEADLOCK FALSE
