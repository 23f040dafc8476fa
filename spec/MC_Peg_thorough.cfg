INIT Init
NEXT Next
CONSTANTS
  MaxLen = 4
  Wide = TRUE
INVARIANTS Implements Terminates Derivation Ordered Inside
CHECK_DEADLOCK FALSE
