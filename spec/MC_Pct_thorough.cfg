SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Declarative Progress Done RoundTrip
PROPERTY Terminates
CHECK_DEADLOCK FALSE
