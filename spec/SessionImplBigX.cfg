SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Senders = {1, 2}
  InReq = {21}
  InEvt = {}
  MaxExtra = 2
  MayClose = TRUE
  MayRefuse = TRUE
  MayDestroyEarly = TRUE
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
