SPECIFICATION Spec
CONSTANTS
  Pieces <- LongPieces
  MaxPieces = 3
  Cps = {0, 65, 233, 55296, 57343, 66559}
  MaxCps = 5
  Emit = TRUE
INVARIANTS EncodeThenDecode CleanBytes DecodeThenEncode ResultCanonical AgreesWithWtf8 EmitCase
VIEW View
CHECK_DEADLOCK FALSE
