SPECIFICATION Fair
CONSTANTS Bug = "none"
 
  Senders = {1}
  InReq = {21}
  InEvt = {}
  MaxExtra = 0
  MayClose = TRUE
  MayRefuse = TRUE
  MayDestroyEarly = TRUE
PROPERTY Live
CHECK_DEADLOCK FALSE
