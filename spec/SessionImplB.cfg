SPECIFICATION Spec
CONSTANTS Bug = "none"
 
  Senders = {1}
  InReq = {21}
  InEvt = {22, 23}
  MaxExtra = 0
  MayClose = FALSE
  MayRefuse = FALSE
  MayDestroyEarly = TRUE
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
