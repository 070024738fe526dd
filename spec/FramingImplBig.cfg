SPECIFICATION Spec
CONSTANTS Bug = "none"
  MaxStream = 4
 Modes = {"ignore", "close"}
INVARIANTS Sound Complete Prompt Closes NoDeadlock
CHECK_DEADLOCK FALSE
