INIT Init
NEXT Next
CONSTANTS NStores = 2 NRegs = 3 Depth = 9 Emit = TRUE Values <- Only
INVARIANTS Alive Placed Written
CHECK_DEADLOCK FALSE
