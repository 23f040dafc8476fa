INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
  Wide = FALSE
INVARIANTS Implements Terminates Derivation Ordered Inside
CHECK_DEADLOCK FALSE
