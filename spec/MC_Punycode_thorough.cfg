SPECIFICATION Spec
CONSTANTS MaxCp = 5
MaxLen = 6
INVARIANTS TypeOK RoundTrip Unique Sorted Agrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
