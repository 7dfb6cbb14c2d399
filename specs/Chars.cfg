SPECIFICATION Spec
CONSTANTS
  What = "header"
  Pairs = FALSE
CHECK_DEADLOCK FALSE
