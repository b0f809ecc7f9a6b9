SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxRank = 3
  Kind = "plain"
INVARIANTS Meaning Decides Reversal Renaming Wilder Longer
CHECK_DEADLOCK FALSE
