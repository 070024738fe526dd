SPECIFICATION Spec
CONSTANTS Scripts <- ScriptsC
 NClients = 2
 Busy = FALSE
 HardFaults = 1
 SetupFaults = 1
 Variant = "code"
INVARIANTS NothingBad NotStuck
CHECK_DEADLOCK FALSE
