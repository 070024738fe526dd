SPECIFICATION Spec
CONSTANTS Readers = {1, 5}
 Writers = {2}
 Closers = {4}
 N = 1
 Avail = 3
 Faults = 1
 Variant = "split"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
