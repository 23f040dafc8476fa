SPECIFICATION Spec
CONSTANT MaxSegs = 1
INVARIANTS TextAgrees HasScheme FragmentOfRef NoDotsLeft SameDocument Forgets StrictOnlyScheme
CHECK_DEADLOCK FALSE
