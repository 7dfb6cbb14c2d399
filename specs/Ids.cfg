SPECIFICATION Spec
CONSTANTS
  What = "tx"
  NObj = 2
  MaxOps = 2
  Bases <- TxBases
VIEW View
INVARIANT Mirror
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
