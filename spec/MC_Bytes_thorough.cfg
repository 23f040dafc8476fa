SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS TypeOK Refines Chosen InTime
PROPERTY Choice
CHECK_DEADLOCK FALSE
