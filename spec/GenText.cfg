INIT Init
NEXT Next
INVARIANT Canonical
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "desc"
  Alphabet = {73, 76, 97, 59, 91, 40, 41, 86}
  Start = 0
  MaxLen = 5
