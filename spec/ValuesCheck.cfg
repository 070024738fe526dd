SPECIFICATION Spec
INVARIANTS Refines Ordered Total VarHolds
CHECK_DEADLOCK FALSE
