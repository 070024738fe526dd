SPECIFICATION Spec
CONSTANTS Bug = "skip_two"
  MaxStream = 3
 Modes = {"ignore", "close"}
INVARIANTS Sound Complete Prompt Closes NoDeadlock
CHECK_DEADLOCK FALSE
