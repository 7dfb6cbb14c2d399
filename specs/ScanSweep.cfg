SPECIFICATION SweepSpec
CONSTANTS
  Alphabet <- Abc
  MaxLen = 3
  MaxOps = 1
  Runs = {1}
VIEW View
INVARIANTS Whole SpanRight
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
