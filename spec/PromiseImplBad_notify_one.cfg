SPECIFICATION Spec
CONSTANTS Bug = "notify_one"
 
  Threads = {1,2,3}
  MaxOps = 2
INVARIANT NoStranded
PROPERTY Refines
CHECK_DEADLOCK FALSE
