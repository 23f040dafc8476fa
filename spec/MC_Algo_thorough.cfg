SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Found Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
