SPECIFICATION Spec
CONSTANTS
  Which = "url"
  Edits = {"cut", "put", "replace", "part", "number"}
  OneOf <- AnyOne
  MaxOps = 1
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
