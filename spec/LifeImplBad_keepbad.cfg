SPECIFICATION Spec
CONSTANTS
  Kinds <- K_A
  Own = 1
  Raw = FALSE
  KeepBad = TRUE
  TwiceBad = FALSE
  Early = FALSE
  Drops = FALSE
INVARIANTS NothingBad NoStuck

CHECK_DEADLOCK FALSE
