SPECIFICATION Spec
CONSTANTS
  What = "header"
CHECK_DEADLOCK FALSE
