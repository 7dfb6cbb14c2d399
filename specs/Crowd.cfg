SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  NAddrs = 60
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
