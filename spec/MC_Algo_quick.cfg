SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Found Order
PROPERTY Ends
CHECK_DEADLOCK FALSE
