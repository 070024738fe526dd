SPECIFICATION TSpec
CONSTANTS
  Threads = {0,1,2,3,4,5,6,7}
  Mutexes = {0,1}
  Slots = {0,1,2}
CONSTRAINT Progress
INVARIANT Exclusion
POSTCONDITION Report
CHECK_DEADLOCK FALSE
