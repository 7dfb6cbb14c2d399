SPECIFICATION Spec
CONSTANTS
  Kinds = {"request", "response", "bare"}
  MaxOps = 2
  Doing = {"remove", "set", "line", "defaults", "send"}
  OneOf <- AnyOne
VIEW View
INVARIANT OnceEach
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
