SPECIFICATION Spec
CONSTANTS
  MaxEq = 2
  Values = {0, 1, 7, 120, 999, 99960}
INVARIANTS Solvable Off
CHECK_DEADLOCK FALSE
