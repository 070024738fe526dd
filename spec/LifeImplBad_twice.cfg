SPECIFICATION Spec
CONSTANTS
  Kinds <- K_A
  Own = 1
  Raw = FALSE
  KeepBad = FALSE
  TwiceBad = TRUE
  Early = FALSE
  Drops = FALSE
INVARIANTS NothingBad NoStuck

CHECK_DEADLOCK FALSE
