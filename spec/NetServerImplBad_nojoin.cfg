SPECIFICATION Spec
CONSTANTS Scripts <- ScriptsA
 NClients = 1
 Busy = FALSE
 HardFaults = 0
 SetupFaults = 0
 Variant = "nojoin"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
