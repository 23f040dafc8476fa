INIT Init
NEXT Next
CONSTANTS MaxHost = 6 MaxText = 5
INVARIANTS RoundTrip Shape Ascii Stable Decodes SplitJoin
CHECK_DEADLOCK FALSE
