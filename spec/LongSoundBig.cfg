CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS Same Exact AllOut
CHECK_DEADLOCK FALSE
