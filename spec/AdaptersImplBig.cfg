SPECIFICATION Spec
CONSTANTS Readers = {1, 5}
 Writers = {2, 3}
 Closers = {4, 6}
 N = 2
 Avail = 3
 Faults = 1
 Variant = "code"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
