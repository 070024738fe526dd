SPECIFICATION Spec
CONSTANTS Bug = "one_pending"
 
  Threads = {1,2,3}
  MaxOps = 2
INVARIANTS Exclusion NoStranded
PROPERTY Refines
CHECK_DEADLOCK FALSE
