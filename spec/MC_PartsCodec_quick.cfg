INIT Init
NEXT Next
CONSTANTS MaxHost = 4 MaxText = 4
INVARIANTS RoundTrip Shape Ascii Stable Decodes SplitJoin
CHECK_DEADLOCK FALSE
