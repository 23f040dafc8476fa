SPECIFICATION Spec
CONSTANTS MaxCp = 4
MaxLen = 4
INVARIANTS TypeOK RoundTrip Unique Sorted Agrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
