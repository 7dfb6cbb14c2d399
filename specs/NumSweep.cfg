SPECIFICATION Spec
CONSTANTS
  What = "good"
  Stride = 499
CHECK_DEADLOCK FALSE
