SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  MaxOps = 6
VIEW View
INVARIANT Carried
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
