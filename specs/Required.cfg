SPECIFICATION Spec
CONSTANTS
  Kinds = {"request", "response", "bare"}
  MaxOps = 2
  Doing = {"remove", "set", "line", "defaults", "send"}
  OneOf <- Every
VIEW View
INVARIANT OnceEach
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
