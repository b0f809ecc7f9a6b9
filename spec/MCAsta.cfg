SPECIFICATION Spec
CONSTANTS
  RaiseErrs = TRUE
  PrintPass = TRUE
  MaxDepth = 1
  MaxCalls = 2
  MaxFuns = 1
  MaxSize = 2
  DimVals = 1
  ShapeVals = 1
  Threads = {1, 2}
  Envs = {"unset", "0"}
INVARIANTS CallsDecided RetsDecided Reports FramesSolvable Switch InStep
PROPERTY Alone
CHECK_DEADLOCK FALSE
