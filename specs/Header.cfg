SPECIFICATION Spec
CONSTANTS
  Kinds <- AllKinds
  Wild = "never"
  NObj = 1
  MaxOps = 2
  Doing = {"set", "parse"}
  Spaces <- SomeSpaces
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
