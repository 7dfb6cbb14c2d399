SPECIFICATION Spec
CONSTANTS
  Kinds = {"request", "response", "bare"}
  MaxOps = 2
  Doing = {"set", "remove", "around", "parse"}
  Used <- Few
VIEW View
INVARIANT OneLength
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
