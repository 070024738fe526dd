SPECIFICATION Spec
CONSTANTS Bug = "none"
  MaxStream = 3
 Modes = {"ignore", "close"}
INVARIANTS Sound Complete Prompt Closes NoDeadlock
CHECK_DEADLOCK FALSE
