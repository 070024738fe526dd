SPECIFICATION Spec
CONSTANTS Bug = "register_late"
 
  Senders = {1, 2}
  InReq = {}
  InEvt = {}
  MaxExtra = 1
  MayClose = FALSE
  MayRefuse = TRUE
  MayDestroyEarly = TRUE
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
