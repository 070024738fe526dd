SPECIFICATION Spec
CONSTANTS Bug = "no_limit"
  MaxStream = 5
 Modes = {"ignore", "close"}
INVARIANTS Sound Complete Prompt Closes NoDeadlock
CHECK_DEADLOCK FALSE
