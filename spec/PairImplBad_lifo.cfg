SPECIFICATION Spec
CONSTANTS
  Plan <- PlanC
  Reqs = {1, 3}
  Nest <- NoNest
  MayClose = FALSE
  MayDestroy = FALSE
  Variant = "lifo"
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
