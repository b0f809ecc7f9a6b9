CONSTANT Used = 8
SPECIFICATION Spec
INVARIANT Total
INVARIANT First
INVARIANT DefaultsWithoutFiles
PROPERTY Local1
CHECK_DEADLOCK FALSE
