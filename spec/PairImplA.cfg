SPECIFICATION Spec
CONSTANTS
  Plan <- PlanA
  Reqs = {1, 3}
  Nest <- NestA
  MayClose = FALSE
  MayDestroy = FALSE
  Variant = "ok"
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
