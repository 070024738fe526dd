SPECIFICATION Spec
CONSTANTS
  Plan <- PlanC
  Reqs = {1, 3, 4}
  Nest <- NoNest
  MayClose = TRUE
  MayDestroy = TRUE
  Variant = "ok"
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
