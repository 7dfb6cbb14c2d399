SPECIFICATION SweepSpec
CONSTANTS
  MaxEdits = 1
  MaxCsrc = 15
  Lens = {0}
  Stride = 31
  Mode = "wire"
INVARIANT Sound
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
