SPECIFICATION Spec
CONSTANTS Scripts <- ScriptsB
 NClients = 1
 Busy = FALSE
 HardFaults = 0
 SetupFaults = 1
 Variant = "code"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
