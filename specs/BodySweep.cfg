SPECIFICATION Spec
CONSTANTS
  Lengths <- Few
CHECK_DEADLOCK FALSE
