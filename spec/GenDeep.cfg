INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  AllIndices = FALSE
  Big = FALSE
  Part = "all"
