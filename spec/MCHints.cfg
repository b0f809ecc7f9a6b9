SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
INVARIANTS EqReflexive EqSymmetric EqSound EqCongruent Idempotent Commute Together LastWins Malformed Narrower
CHECK_DEADLOCK FALSE
