SPECIFICATION SweepSpec
CONSTANTS
  MaxOps = 1
  Mode = "all"
  Stride = 11
CHECK_DEADLOCK FALSE
