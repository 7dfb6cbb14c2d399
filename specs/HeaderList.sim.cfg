SPECIFICATION LSpec
CONSTANTS
  Kinds <- ListKinds
  Wild = "always"
  NObj = 8
  MaxOps = 2
  Doing = {"set", "bad", "list", "parse", "clone"}
  Spaces <- SomeSpaces
  Joining = TRUE
  OneOf <- AnyOne
VIEW LView
INVARIANT Apart
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
