SPECIFICATION Spec
CONSTANTS
  Doing = {"edit", "reparse"}
  MaxOps = 2
  NObj = 1
  Kinds = {"sip", "tel", "address"}
  OneOf <- AnyOne
VIEW View
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
