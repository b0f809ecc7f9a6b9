SPECIFICATION Spec
CONSTANTS
  Nested = FALSE
  Full = TRUE
INVARIANTS Right Decided Order Offers Weaker Lines Names
CHECK_DEADLOCK FALSE
