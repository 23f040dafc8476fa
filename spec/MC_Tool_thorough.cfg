INIT Init
NEXT Next
CONSTANTS
  MaxTokens = 4
  MaxStreams = 2
INVARIANTS Agrees Ordered Terminates
CHECK_DEADLOCK FALSE
