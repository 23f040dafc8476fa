SPECIFICATION Spec
CONSTANT MaxSegs = 2
INVARIANTS TextAgrees HasScheme FragmentOfRef NoDotsLeft SameDocument Forgets StrictOnlyScheme
CHECK_DEADLOCK FALSE
