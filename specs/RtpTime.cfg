SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
  MaxOps = 2
VIEW View
INVARIANT Carried
INVARIANT SubUndoesAdd
INVARIANT TotalOrder
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
