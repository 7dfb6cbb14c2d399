SPECIFICATION Spec
CONSTANTS
  What = "fold"
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
