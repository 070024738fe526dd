SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2,3,4}
  MaxOps = 2
INVARIANT NoStranded
PROPERTY Refines
CHECK_DEADLOCK FALSE
