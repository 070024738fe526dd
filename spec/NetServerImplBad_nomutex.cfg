SPECIFICATION Spec
CONSTANTS Scripts <- ScriptsB
 NClients = 1
 Busy = FALSE
 HardFaults = 0
 SetupFaults = 0
 Variant = "nomutex"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
