SPECIFICATION Spec
CONSTANTS
  Plan <- PlanB
  Reqs = {1, 3}
  Nest <- NoNest
  MayClose = TRUE
  MayDestroy = TRUE
  Variant = "ok"
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
