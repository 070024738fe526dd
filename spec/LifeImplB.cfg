SPECIFICATION Spec
CONSTANTS
  Kinds <- K_B
  Own = 1
  Raw = FALSE
  KeepBad = FALSE
  TwiceBad = FALSE
  Early = FALSE
  Drops = FALSE
INVARIANTS NothingBad NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
