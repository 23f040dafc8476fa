SPECIFICATION Spec
CONSTANTS MaxLen8 = 3 MaxLen16 = 4
INVARIANTS TypeOK Refines Whole AllScalar Exact Transcodes
CHECK_DEADLOCK FALSE
