SPECIFICATION SweepSpec
CONSTANTS
  Wide = FALSE
  MaxOps = 1
  Stride = 997
CHECK_DEADLOCK FALSE
