SPECIFICATION Spec
CONSTANTS
  Used = {1, 27, 6}
  Kind = "request"
  OneOf <- AnyOne
  MaxOps = 2
  Doing = {"attach", "add", "set", "remove", "inside", "idle"}
VIEW View
INVARIANT OneTable
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
