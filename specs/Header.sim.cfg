SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  Wild = "always"
  NObj = 1
  MaxOps = 8
  Doing = {"set", "parse"}
  Spaces <- SomeSpaces
VIEW View
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
