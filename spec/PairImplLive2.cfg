SPECIFICATION Fair
CONSTANTS
  Plan <- PlanA
  Reqs = {1, 3}
  Nest <- NestA
  MayClose = FALSE
  MayDestroy = FALSE
  Variant = "ok"
PROPERTY Live
CHECK_DEADLOCK FALSE
