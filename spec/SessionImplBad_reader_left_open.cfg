SPECIFICATION Spec
CONSTANTS Bug = "reader_left_open"
 
  Senders = {1}
  InReq = {21}
  InEvt = {22}
  MaxExtra = 0
  MayClose = TRUE
  MayRefuse = FALSE
  MayDestroyEarly = TRUE
INVARIANTS NoBad FutOK QuietOK
CHECK_DEADLOCK FALSE
