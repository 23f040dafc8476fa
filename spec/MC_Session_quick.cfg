INIT Init
NEXT Next
VIEW NoHist
CONSTANTS NStores = 2 NRegs = 2 Depth = 5 Emit = FALSE
INVARIANTS Alive Placed
CHECK_DEADLOCK FALSE
