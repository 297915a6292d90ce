SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emit = FALSE
  Alphabet = {0, 65, 127, 128, 143, 144, 159, 160, 175, 176, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
INVARIANTS AutoIsDef BadIsFinal RoundTrip
CHECK_DEADLOCK FALSE
