SPECIFICATION Spec
CONSTANTS MaxLen8 = 4 MaxLen16 = 5
INVARIANTS TypeOK Refines Whole AllScalar Exact Transcodes
CHECK_DEADLOCK FALSE
