SPECIFICATION Spec
CONSTANTS Scripts <- ScriptsB
 NClients = 1
 Busy = TRUE
 HardFaults = 0
 SetupFaults = 0
 Variant = "code"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
