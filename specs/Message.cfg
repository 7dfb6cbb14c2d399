SPECIFICATION Spec
CONSTANTS
  Used = {1, 27, 6}
  Kind = "request"
  OneOf <- Every
  MaxOps = 2
  Doing = {"attach", "add", "set", "remove", "inside", "idle"}
VIEW View
INVARIANT OneTable
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
