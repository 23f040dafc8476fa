SPECIFICATION Spec
INVARIANTS UriIsRefWithScheme Disjoint Once
CHECK_DEADLOCK FALSE
