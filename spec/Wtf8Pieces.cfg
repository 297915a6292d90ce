SPECIFICATION Spec
CONSTANTS
  Pieces <- LongPieces
  MaxPieces = 4
  Emit = TRUE
INVARIANTS AutoIsDef RoundTrip EmitCase
VIEW View
CHECK_DEADLOCK FALSE
