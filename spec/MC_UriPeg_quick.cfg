INIT Init
NEXT Next
INVARIANTS RefHolds UriHolds
CONSTANTS General = 3
          Six = 10
          Four = 9
          Future = 4
CHECK_DEADLOCK FALSE
