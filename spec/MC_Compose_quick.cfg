SPECIFICATION Spec
CONSTANT MaxSegs = 1
INVARIANTS SplitsBack ValidSplits ValidSame ValidCanonical SaysSoIsValid ComposeSplit EqCongruent
CHECK_DEADLOCK FALSE
