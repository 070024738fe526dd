SPECIFICATION Spec
CONSTANTS Readers = {1}
 Writers = {2, 3}
 Closers = {4}
 N = 1
 Avail = 3
 Faults = 1
 Variant = "code"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
