SPECIFICATION Spec
CONSTANTS
  Cps = {65, 233, 55296, 57343, 66559}
  MaxLen = 3
  ArgLen = 2
  Emit = TRUE
INVARIANTS WellFormedAlways Utf16Lossless Mutf8Lossless Mutf8Clean LossyLen
ACTION_CONSTRAINTS SliceWF RefusalIsNoop EmitCase
VIEW View
CHECK_DEADLOCK FALSE
