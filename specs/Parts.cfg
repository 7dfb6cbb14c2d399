SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"cid"}
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
