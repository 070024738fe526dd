SPECIFICATION Spec
CONSTANTS
  Plan <- PlanC
  Reqs = {1, 3, 4}
  Nest <- NestC
  MayClose = FALSE
  MayDestroy = FALSE
  Variant = "ok"
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
