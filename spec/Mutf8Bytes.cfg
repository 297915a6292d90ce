SPECIFICATION Spec
CONSTANTS
  Pieces <- BytePieces
  MaxPieces = 3
  Cps = {0, 1, 127, 128, 2047, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65535, 65536, 66559, 1114111}
  MaxCps = 3
  Emit = TRUE
INVARIANTS EncodeThenDecode CleanBytes DecodeThenEncode ResultCanonical AgreesWithWtf8 EmitCase
VIEW View
CHECK_DEADLOCK FALSE
