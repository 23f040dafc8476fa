SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Declarative Progress Done RoundTrip
PROPERTY Terminates
CHECK_DEADLOCK FALSE
