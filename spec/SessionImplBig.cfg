SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Senders = {1, 2}
  InReq = {21}
  InEvt = {22}
  MaxExtra = 0
  MayClose = TRUE
  MayRefuse = FALSE
  MayDestroyEarly = TRUE
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
