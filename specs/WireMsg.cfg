SPECIFICATION Spec
CONSTANTS
  Used <- AllHeaders
  Rich = FALSE
  Names = {1}
  Spaces = {1}
  Ends = {1}
  Starts <- GoodStart
  Bads <- None
  Frames <- OneFrame
  OneOf <- Every
  MaxOps = 1
INVARIANT Kept
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
