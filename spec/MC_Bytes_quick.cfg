SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS TypeOK Refines Chosen InTime
PROPERTY Choice
CHECK_DEADLOCK FALSE
