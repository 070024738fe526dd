CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Same Exact AllOut
CHECK_DEADLOCK FALSE
