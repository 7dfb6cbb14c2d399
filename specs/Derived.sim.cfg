SPECIFICATION Spec
CONSTANTS
  Sorts = {"response", "cancel", "ack", "fresh", "request"}
  Starts <- RandomStarts
  MaxOps = 2
VIEW View
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
