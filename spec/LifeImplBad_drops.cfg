SPECIFICATION Spec
CONSTANTS
  Kinds <- K_B
  Own = 1
  Raw = FALSE
  KeepBad = FALSE
  TwiceBad = FALSE
  Early = FALSE
  Drops = TRUE
INVARIANTS NothingBad NoStuck

CHECK_DEADLOCK FALSE
