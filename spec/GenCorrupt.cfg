INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  AllIndices = FALSE
  Base = "code"
  Values = "some"
  Stride = 1
