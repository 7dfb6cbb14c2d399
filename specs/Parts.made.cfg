INIT MadeInit
NEXT MadeNext
CONSTANTS
  MaxOps = 1
  Kinds = {}
CHECK_DEADLOCK FALSE
