SPECIFICATION LSpec
CONSTANTS
  Kinds <- ListKinds
  Wild = "never"
  NObj = 8
  MaxOps = 2
  Doing = {"set", "bad", "list", "parse", "clone"}
  Spaces <- SomeSpaces
  Joining = TRUE
  OneOf <- Every
VIEW LView
INVARIANT Apart
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
