SPECIFICATION Spec
CONSTANT MaxSegs = 2
INVARIANTS SplitsBack ValidSplits ValidSame ValidCanonical SaysSoIsValid ComposeSplit EqCongruent
CHECK_DEADLOCK FALSE
