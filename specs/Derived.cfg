SPECIFICATION Spec
CONSTANTS
  Sorts = {"response", "cancel", "ack", "fresh", "request"}
  Starts <- AskStarts
  MaxOps = 2
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
