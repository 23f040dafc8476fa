INIT Init
NEXT Next
INVARIANTS RefHolds UriHolds
CONSTANTS General = 5
          Six = 18
          Four = 16
          Future = 7
CHECK_DEADLOCK FALSE
