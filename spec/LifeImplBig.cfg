SPECIFICATION Spec
CONSTANTS
  Kinds <- K_C
  Own = 2
  Raw = FALSE
  KeepBad = FALSE
  TwiceBad = FALSE
  Early = FALSE
  Drops = FALSE
INVARIANTS NothingBad NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
