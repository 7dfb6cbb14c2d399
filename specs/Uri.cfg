SPECIFICATION Spec
CONSTANTS
  Doing = {"edit", "reparse"}
  MaxOps = 2
  NObj = 1
  Kinds = {"sip", "tel", "address"}
  OneOf <- Every
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
