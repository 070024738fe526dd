SPECIFICATION Spec
CONSTANTS Readers = {1}
 Writers = {2}
 Closers = {4, 6}
 N = 1
 Avail = 3
 Faults = 1
 Variant = "twice"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
