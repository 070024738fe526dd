SPECIFICATION Spec
CONSTANTS Bug = "stays_open"
  MaxStream = 3
 Modes = {"ignore", "close"}
INVARIANTS Sound Complete Prompt Closes NoDeadlock
CHECK_DEADLOCK FALSE
