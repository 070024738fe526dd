SPECIFICATION Fair
CONSTANTS
  Plan <- PlanA
  Reqs = {1, 3}
  Nest <- NoNest
  MayClose = TRUE
  MayDestroy = TRUE
  Variant = "ok"
PROPERTY Live
CHECK_DEADLOCK FALSE
