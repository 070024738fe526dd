SPECIFICATION Spec
CONSTANTS Bug = "no_recheck"
 
  Threads = {1,2,3}
  MaxOps = 2
INVARIANT NoStranded
PROPERTY Refines
CHECK_DEADLOCK FALSE
