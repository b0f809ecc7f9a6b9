SPECIFICATION Spec
CONSTANTS
  MaxEq = 2
  Shapes = {0, 1, 3, 4}
INVARIANTS Sound Precise YesHasWitness
PROPERTY MonotoneYes
CHECK_DEADLOCK FALSE
