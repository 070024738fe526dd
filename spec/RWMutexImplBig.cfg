SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Threads = {1,2,3,4}
  MaxOps = 2
INVARIANTS Exclusion NoStranded
PROPERTY Refines
CHECK_DEADLOCK FALSE
