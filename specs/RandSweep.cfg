SPECIFICATION Spec
CONSTANTS
  Count = 1500
CHECK_DEADLOCK FALSE
