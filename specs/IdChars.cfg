SPECIFICATION Spec
CONSTANTS
  What = "tx"
CHECK_DEADLOCK FALSE
